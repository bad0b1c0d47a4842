"""P20 P21 P22 P29 P30: operator database, particles, point fields, one-dimensional interpolation, comparisons."""
import re
from math import lcm
import nebogen as ng
from vlib import *
from geom import s3

def p20(c):
    out, st = c.model_check("MCOpDB", "MCOpDB.cfg" if QUICK else "MCOpDBT.cfg")
    hs = [re.findall(r'"(\w)\\?"', h) for h in re.findall(r'HIST <<(.*?)>>', out)]
    if len(hs) < 4**6 or any(len(h) < 6 for h in hs): raise CheckError("history generation printed %d histories" % len(hs))
    exe = build("opdb", ["opdb.cpp"], libs=())
    r = c.rng
    if not QUICK: hs = r.sample(hs, 20000)
    cases = {"h%d" % i: h for i, h in enumerate(hs)}
    for i in range(100 if QUICK else 2000): cases["r%d" % i] = [r.choices("ABCDE", [3,3,3,3,1])[0] for _ in range(r.randint(8, 30))]
    c.validate("TraceOpDB", c.run_cases(exe, cases, "opdb"), cases, exe, cfg="TraceOpDB.cfg")
    c.extra["histories_from_specification"] = len(hs)

def dims_case(r, t):
    n = [r.choice([1, 1, 2, 3, 4]) for _ in range(3)]
    bc = [int(n[d] > 1 and r.random() < .4) for d in range(3)]
    def gh(): return [r.randint(0, 2) if n[d] > 1 else 0 for d in range(3)]
    gm, gp = gh(), gh(); x = [n[d] + gm[d] + gp[d] + bc[d]*ng.BCX[t][d] if n[d] > 1 else 1 for d in range(3)]
    return n, bc, gm, gp, x

def p22(c):
    exe = build("xfer", ["xfer.cpp"]); r = c.rng; cases = {}
    for i in range(400 if QUICK else 6000):
        t = r.choice(ng.TYPES); n, bc, gm, gp, x = dims_case(r, t)
        pad = r.random() < .4
        lo, hi = ([[r.randint(0, 2) for _ in range(3)] for _ in range(2)] if pad else [[0]*3]*2)
        G = [x[d]+lo[d]+hi[d] for d in range(3)]; N = G[0]*G[1]*G[2]
        L = ["t " + t, "dir " + r.choice(["f2p", "p2f"]), "n " + s3(n), "bc " + s3(bc), "g %s %s" % (s3(gm), s3(gp)), "pad %s %s" % (s3(lo), s3(hi)), "seed %d" % r.randint(1, 99999)]
        if i % 2:
            if r.random() < .6: L.append("v %s %s" % (s3([r.randint(0, v) for v in gm]), s3([r.randint(0, v) for v in gp])))
            q = r.choice([.05, .3, .9]); L += ["form field", "marks " + " ".join(str(r.randint(1, 3) if r.random() < q else 0) for _ in range(N))]
        else:
            k = r.randint(1, min(N, 20)); ix = [r.randrange(N) for _ in range(k)] if r.random() < .3 else r.sample(range(N), k)
            if r.random() < .2: ix.sort()
            L += ["form list", "idx " + " ".join(map(str, ix))]
        cases["pt%d" % i] = L + ["points"]
    c.validate("TraceXfer", c.run_cases(exe, cases, "pt"), cases, exe)

def p21(c):
    exe = build("xfer", ["xfer.cpp"]); r = c.rng; cases = {}
    for i in range(500 if QUICK else 8000):
        t = r.choice(["SVol", "XVol", "SSurfX", "ZVol", "YSurfY"]); n = r.choice([2, 3, 5, 8, 12])
        binary = r.random() < .7
        # lengths in units; binary units make every coordinate exact
        unit = r.choice(["1 16", "1 2", "1 1", "4 1"]) if binary else r.choice(["1 10", "1 3", "7 100"])
        fine = binary and r.random() < .3          # cells much larger than the particles, and overlaps which are a tiny part of both
        dx = r.choice([1, 2, 3, 4, 6, 8]) * 2 if not fine else r.choice([256, 1024, 4096]) * 2
        x0 = r.choice([-dx//2, -dx//2, dx//2, 0, r.randint(-60, 60)])
        xs = [x0 + k*dx for k in range(n)]
        lo, hi = x0 - dx//2, x0 + (n-1)*dx + dx//2
        if i % 12 == 11 and n > 2: xs[r.randrange(n)] += r.choice([-1, 1])
        ps = []
        for _ in range(r.randint(1, 8)):
            m = 0 if binary else 1
            s = r.choice([2, 4, 8, 16, 32]) if r.random() < .7 else 2*r.randint(1, 20) if not fine else 2**r.randint(6, 13)
            s = max(2, min(s, (hi - lo - 2*m)//2*2))
            a = r.choice([r.randint(lo+m, hi-m-s), r.choice([q for q in range(lo, hi+1) if (q-lo) % dx == 0])])
            if binary and r.random() < .25: a = r.choice([lo, hi-s])
            if fine and r.random() < .7:            # an edge of the particle close to a cell boundary
                a = lo + dx*r.randint(0, n) + r.choice([-3, -2, -1, 1, 2, 3]) - r.choice([0, s])
            a = min(max(a, lo+m), hi-m-s)
            ps.append("p %d %d %d" % (a + s//2, s, s*r.randint(-6, 6)))
        L = ["t " + t, "dir " + r.choice(["p2c", "c2p"]), "seed %d" % r.randint(1, 99999), "g %d 0 0 %d 0 0" % ((1, 1) if n > 3 else (0, 0)), "unit " + unit, "coord " + " ".join(map(str, xs)), "reps %d" % r.choice([1, 1, 2])]
        # mesh values divisible by every particle's width so that the average is whole
        w = 1
        for q in ps: w = lcm(w, int(q.split()[2]))
        if w > 8192: L[1] = "dir p2c"; w = 1
        L.append("cv " + " ".join(str(w*r.randint(-5, 5)) for _ in range(n)))
        cases["pa%d" % i] = L + ps + ["particles"]
    c.validate("TraceXfer", c.run_cases(exe, cases, "pa"), cases, exe)

def cmp_case(r, i):
    kind = ["exact", "abs", "rel", "ulp"][i % 4]; form = r.choice(["field", "field", "const"])
    t = r.choice(ng.TYPES); n, bc, gm, gp, x = dims_case(r, t)
    lo, hi = ([[r.randint(0, 2) for _ in range(3)] for _ in range(2)] if r.random() < .3 else [[0]*3]*2)
    vm, vp = ([r.randint(0, v) for v in gm], [r.randint(0, v) for v in gp]) if r.random() < .3 else (gm, gp)
    def fld(k, n, lo, hi, vm, vp): return "fld %d %s %s %s %s %s %s %s %s" % (k, s3(n), s3(gm), s3(gp), s3(bc), s3(vm), s3(vp), s3(lo), s3(hi))
    G = [x[d]+lo[d]+hi[d] for d in range(3)]; N = G[0]*G[1]*G[2]
    p, q, wea, eap, eaq = 0, 1, 0, 0, 1
    if kind == "abs": p, q = r.choice([(0,1), (1,1), (3,1), (1,2), (5,2), (-2,1), (7,4)])
    if kind == "rel":
        p, q = r.choice([(0,1), (1,1), (1,2), (1,4), (-1,2), (3,4), (1,16), (2,1)]); wea = r.randint(0, 1)
        if wea: eap, eaq = r.choice([(0,1), (1,1), (2,1), (1,2), (5,4), (100,1)])
    if kind == "ulp": p = r.choice([0, 1, 2, 3, 10])
    cc, ck = r.randrange(7), r.randint(-3, 3); cst = r.choice([0, r.randint(-40, 40)])
    # values around the reference so that single cells decide
    def near(v):
        if kind == "exact" or p == 0: return v
        if kind == "abs": b = abs(p)//q; return v + r.choice([-b, b, 0, r.randint(-b, b)])
        b = abs(p)*(abs(v)*eaq + eap)//(q*eaq); return v + r.choice([-b, b, 0])
    def off(v):
        if kind == "abs": return v + r.choice([-1, 1])*(abs(p)//q + 1)
        if kind == "rel": return v + r.choice([-1, 1])*(abs(p)*(abs(v)*eaq + eap)//(q*eaq) + 1)
        return v + r.choice([-1, 1])
    L = ["t " + t, fld(0, n, lo, hi, vm, vp)]
    if kind == "ulp":
        A = [(r.randrange(7), r.randint(-6, 6)) for _ in range(N)]
        B = [(a, k + r.choice([-p, p, 0, r.randint(-p, p)])) for a, k in A]
        if form == "const": A = [(cc, ck + r.choice([-p, p, 0])) for _ in range(N)]
        bad = r.random() < .6
        if bad:
            k = r.randrange(N)
            if r.random() < .2: B[k] = ((B[k][0]+1) % 7, 0)
            else: B[k] = (A[k][0], A[k][1] + r.choice([-1, 1])*(p+1))
            if form == "const": A[k] = (cc, ck + r.choice([-1, 1])*(p+1))
        L.append("uvals 0 " + " ".join("%d %d" % v for v in A)); vb = "uvals 1 " + " ".join("%d %d" % v for v in B)
    else:
        A = [r.choice([0, r.randint(-50, 50)]) for _ in range(N)]
        if form == "const": A = [near(cst) for _ in range(N)]
        B = [near(a) for a in A]
        if r.random() < .6:
            k = r.randrange(N)
            if form == "const": A[k] = off(cst)
            else: B[k] = off(A[k])
        L.append("vals 0 " + " ".join(map(str, A))); vb = "vals 1 " + " ".join(map(str, B))
    if form == "field":
        n2, lo2, hi2, vm2, vp2 = n, lo, hi, vm, vp
        y = r.random()
        if y < .12:
            d = r.randrange(3)
            if y < .04: n2 = list(n); n2[d] += 1 if n[d] > 1 else 0
            elif y < .08: lo2 = list(lo); lo2[d] += 1
            else: vm2 = [max(0, v-1) for v in vm]
        L += [fld(1, n2, lo2, hi2, vm2, vp2), vb]
    return L + ["cmp %s %s %d %d %d %d %d %d %d %d" % (kind, form, p, q, wea, eap, eaq, cst, cc, ck)]

def p30(c):
    exe = build("cmp", ["cmp.cpp"], libs=("structured", "onedim")); r = c.rng
    cases = {"c%d" % i: cmp_case(r, i) for i in range(600 if QUICK else 10000)}
    c.validate("TraceCmp", c.run_cases(exe, cases, "cmp"), cases, exe)

def lag_case(xs, x, o, der, ys, e=0, shift=0):
    xs = [a + shift for a in xs]; x += shift   # e: the unit of length is 2^e
    # a denominator that makes the interpolated value whole
    den = 1
    import itertools
    for a in range(len(xs) - o):
        w = xs[a:a+o+1]
        for k in w:
            d = 1
            for j in w:
                if j != k: d *= abs(k - j)
            den = lcm(den, d)
    return ["xs " + " ".join(map(str, xs)), "ys " + " ".join(map(str, ys)), "den %d" % den, "lag %s %d %d %d" % ("deriv" if der else "value", o, x, e)], den

def p29(c):
    exe = build("cmp", ["cmp.cpp"], libs=("structured", "onedim")); r = c.rng; cases = {}
    i = 0
    # every small mesh, order and position
    for xs in ([0, 2], [0, 2, 4], [-2, 0, 6], [0, 4, 6], [1, 2, 4, 8], [0, 2, 4, 6, 8], [-3, -1, 2, 3, 9], [0, 6, 8, 10, 12, 24]):
        for o in range(0, min(len(xs), 5)):
            for der in (False, True):
                for x in range(xs[0]-2, xs[-1]+3):
                    ys = [r.randint(-3, 3) for _ in xs]
                    L, den = lag_case(xs, x, o, der, ys)
                    if den > 20000: continue
                    cases["e%d" % i] = L; i += 1
    for _ in range(400 if QUICK else 20000):
        n = r.randint(2, 12); xs = [r.randint(-20, 20)]
        uni = r.random() < .5; h = r.randint(1, 2)
        while len(xs) < n: xs.append(xs[-1] + (h if uni else r.randint(1, 3)))
        o = r.randint(0, min(n-1, 4)); x = r.choice([r.choice(xs), r.randint(xs[0]-2, xs[-1]+2), r.randint(xs[0], xs[-1])])
        L, den = lag_case(xs, x, o, r.random() < .5, [r.randint(-3, 3) for _ in xs], r.choice([0, 0, -8, -14, -22, -30, -40, 10, 30, r.randint(-60, 60)]), r.choice([0, 0, 0, 2000, -2000000, 100000000]))
        if den > 20000: continue
        cases["r%d" % i] = L; i += 1
    c.validate("TraceCmp", c.run_cases(exe, cases, "lag"), cases, exe)

CHECKS = {"P20": p20, "P21": p21, "P22": p22, "P29": p29, "P30": p30}
