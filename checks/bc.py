"""P18: boundary conditions by operator, by mask and by direct assignment."""
import itertools
from vlib import *
import nebogen as ng
from geom import s3

SRC = ["bc.cpp"] + ["bc_%s%d.cpp" % (v, k) for v in "sxyz" for k in (1, 2)]

def ops():
    out = []
    for v in ng.VOLS:
        for f in ng.FACE[v]: out += [("Gradient",v,f),("Interpolant",v,f),("Divergence",f,v),("Interpolant",f,v)]
        out += [(o+d,v,v) for o in ("Gradient","Interpolant") for d in "XYZ"]
    for q in ng.VOLS[1:]:
        for o in ("Gradient","Interpolant"): out += [(o,"SVol",q),(o,q,"SVol")]
    return out
def nebo_ops():
    out = []
    for v in ng.VOLS:
        x, y, z = ng.FACE[v]
        out += [("Interpolant",v,x),("Gradient",v,y),("Interpolant",v,z),("Gradient",v,x),("Divergence",x,v),("Interpolant",y,v)]
    return out

def make(r, form, o, s, d):
    p = ng.op_points(o, s, d); ld = [q for q in range(3) if p[0][q] != p[1][q]][0]
    for _ in range(60):
        n = [r.choice([1, 1, 2, 3, 4, 5]) for _ in range(3)]; n[ld] = r.choice([2, 3, 4, 5, 7])
        bc = [int(n[q] > 1 and r.random() < .5) for q in range(3)]
        lo = 1 if form == "nebo" else 0
        def gh(): return [r.choice([lo, 1, 1, 2]) if n[q] > 1 else 0 for q in range(3)]
        gm, gp, dm, dp = gh(), gh(), gh(), gh()
        x = [bc[q]*ng.BCX[s][q] for q in range(3)]; dx = [bc[q]*ng.BCX[d][q] for q in range(3)]
        lo_, hi = [-gm[q] for q in range(3)], [n[q]+gp[q]+x[q] for q in range(3)]
        side = r.choice(["minus", "plus"] + (["none"] if o[-1] in "XYZ" and form == "pt" else []))
        direct = form[0] == "d"
        if form == "nebo":
            des, src = (p[0], p[1]) if side == "minus" else (p[1], p[0])
            # the box the assignment covers: the mask and the prescribed values live around the point, the other cell next to it
            A = [sum(a) for a in zip([0]*3, [-c for c in des])]; B = [src[q]-des[q] for q in range(3)]
            m = [min(gm[q], dm[q]-max(0,-A[q]), gm[q]-max(0,-B[q])) for q in range(3)]
            P = [min(gp[q]+x[q], dp[q]+dx[q]-max(0,A[q]), gp[q]+x[q]-max(0,B[q])) for q in range(3)]
            if any(P[q] < x[q] for q in range(3)) or min(m+P) < 0: continue
            blo, bhi = [-m[q] for q in range(3)], [n[q]+P[q] for q in range(3)]
        def inside(c, a, b): return all(a[q] <= c[q] < b[q] for q in range(3))
        cand = []
        for c in itertools.product(*[range(-3, n[q]+4) if n[q] > 1 else [0] for q in range(3)]):
            a = [tuple(c[q]+w[q] for q in range(3)) for w in p]
            if direct:
                if inside(c, lo_, hi): cand.append((c, c, None))
            elif all(inside(w, lo_, hi) for w in a):
                if side == "none": cand.append((c, a[0], a[1]))
                else:
                    de, so = (a[0], a[1]) if side == "minus" else (a[1], a[0])
                    if form == "nebo" and not (inside(de, blo, bhi) and inside(c, [-v for v in dm], [n[q]+dp[q]+dx[q] for q in range(3)])): continue
                    cand.append((c, de, so))
        if not cand: continue
        # whole faces, edges of the field, or scattered points
        mode = r.random()
        if mode < .4:
            e = r.choice([min, max])(w[0][ld] for w in cand) if r.random() < .6 else r.choice([w[0][ld] for w in cand])
            pick = [w for w in cand if w[0][ld] == e]
        else: pick = r.sample(cand, min(len(cand), r.randint(1, 12)))
        r.shuffle(pick); got = []; des = set(); srcs = set()
        for c, de, so in pick:
            if side == "none" and not direct:
                if de in des or de in srcs or so in des or so in srcs: continue
                des |= {de, so}
            else:
                if de in des or de in srcs or so in des: continue
                des.add(de); srcs.add(so)
            got.append(c)
        if not got: continue
        sp = [r.choice([2, 4, 8, 16, 32] if r.random() < .6 else [1, 256, 1024, 4096, 8192]) for _ in range(3)]
        app = all(gm[q] + min(w[q], 0) >= 0 and gp[q] + x[q] - max(w[q], 0) >= 0 for w in p for q in range(3)) and all(min(gp[q]+x[q]-max(w[q],0) for w in p) >= dx[q] for q in range(3))
        L = ["app %d" % app, "n " + s3(n), "bc " + s3(bc), "sp8 " + s3(sp), "g %s %s" % (s3(gm), s3(gp)), "dg %s %s" % (s3(dm), s3(dp)), "seed %d" % r.randint(1, 99999), "gmode %d" % r.choice([0, 1, 2]),
             "bcop %s %s %s %s %s" % (form, side, o, s, d)]
        return L + ["pt %s %d" % (s3(c), r.randint(-90, 90)) for c in got[:40]]
    return None

def p18(c):
    exe = build("bc", SRC, libs=("structured", "stencil"))
    r = c.rng; cases = {}
    def add(tag, form, t):
        L = make(r, form, *t)
        if L: cases[tag] = L
    for i, t in enumerate(ops()):
        for j, form in enumerate(["pt", "vec", "vecg"]*(2 if QUICK else 20)): add("o%d_%d" % (i, j), form, t)
        for j, form in enumerate(["dpt", "dvec", "dvecg"]*(1 if QUICK else 5)):
            if i % 3 == 0 or not QUICK: add("d%d_%d" % (i, j), form, t)
    for i, t in enumerate(nebo_ops()):
        for j in range(8 if QUICK else 60): add("n%d_%d" % (i, j), "nebo", t)
    files = c.run_cases(exe, cases, "bc"); c.validate("TraceBC", files, cases, exe)
    c.extra["operators"] = len(ops()); c.extra["mask_conditions"] = len(nebo_ops())

CHECKS = {"P18": p18}
