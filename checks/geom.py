"""P04 P05 P06 P09 P10 P19 P33: index space, iterators, ghosts, sizing, grids."""
import itertools
from vlib import *

TYPES = ["SVol","SSurfX","SSurfY","SSurfZ","XVol","XSurfX","XSurfY","XSurfZ","YVol","YSurfX","YSurfY","YSurfZ","ZVol","ZSurfX","ZSurfY","ZSurfZ"]
INF = 9001

def s3(v): return "%d %d %d" % tuple(v)

def windows_small(N, Nz):
    for g in itertools.product(range(1, N+1), range(1, N+1), range(1, Nz+1)):
        for x in itertools.product(*[range(1, k+1) for k in g]):
            for o in itertools.product(*[range(0, g[d]-x[d]+1) for d in range(3)]):
                yield g, o, x

def rand_window(r, big=9):
    g = [r.choice([1, 2, 3, 4, 5, 6, 7, big]) for _ in range(3)]
    x = [r.randint(1, k) for k in g]
    o = [r.randint(0, g[d]-x[d]) for d in range(3)]
    return g, o, x

def group(cases, per, prefix):
    """cases: list of op-line lists -> dict of grouped cases"""
    out = {}
    for i in range(0, len(cases), per):
        out["%s%d" % (prefix, i // per)] = [l for c in cases[i:i+per] for l in c]
    return out

def geom(c): return build("geom", ["geom.cpp"])

def run(c, cases, exe=None):
    exe = exe or geom(c)
    files = c.run_cases(exe, cases, "geom")
    c.validate("TraceGeom", files, cases, exe)

def p04(c):
    c.model_check("MCGeometry", "MCGeometryW.cfg")
    L = []
    allw = list(windows_small(3, 3)) if not QUICK else c.rng.sample(list(windows_small(3, 3)), 300)
    for g, o, x in allw: L.append(["win %s %s %s" % (s3(g), s3(o), s3(x)), "index"])
    n = 400 if QUICK else 4000
    for _ in range(n):
        g, o, x = rand_window(c.rng)
        ops = ["win %s %s %s" % (s3(g), s3(o), s3(x)), "index"]
        for _ in range(3):
            g2, o2, x2 = list(g), list(o), list(x)
            k = c.rng.randrange(4); d = c.rng.randrange(3)
            if k == 0: g2[d] += 1
            if k == 1: x2[d] = max(1, x2[d]-1)
            if k == 2 and o2[d] > 0: o2[d] -= 1
            ops.append("cmpwin %s %s %s" % (s3(g2), s3(o2), s3(x2)))
        L.append(ops)
    for d in ((300, 1, 1), (1, 250, 1), (1, 1, 270), (70, 30, 1), (1, 40, 50), (33, 1, 65)):
        L.append(["win %s 0 0 0 %s" % (s3(d), s3(d)), "index"])
    run(c, group(L, 25, "w"))

def p05(c):
    c.model_check("MCGeometry", "MCGeometryW.cfg")
    L = []
    for g, o, x in (c.rng.sample(list(windows_small(4, 3)), 250) if QUICK else list(windows_small(4, 3))):
        ops = ["win %s %s %s" % (s3(g), s3(o), s3(x))]
        for s in itertools.product(*[range(1, k+1) for k in x]): ops.append("refine %s" % s3(s))
        L.append(ops)
    for _ in range(300 if QUICK else 5000):
        g = [c.rng.randint(1, 40) for _ in range(3)]; x = [c.rng.randint(1, k) for k in g]; o = [c.rng.randint(0, g[d]-x[d]) for d in range(3)]
        ops = ["win %s %s %s" % (s3(g), s3(o), s3(x))]
        for _ in range(6):
            s = [c.rng.randint(1, min(x[d], 6)) for d in range(3)]
            ops.append("refine %s" % s3(s))
        s = [1, 1, 1]; d = c.rng.randrange(3); s[d] = x[d]; ops.append("refine %s" % s3(s))
        L.append(ops)
    run(c, group(L, 25, "r"))

def p06(c):
    c.model_check("FieldIter")
    L = []
    r = c.rng
    def session(g, o, x, kind, steps):
        ops = ["iter %s %s %s %s" % (kind, s3(g), s3(o), s3(x))]
        n = x[0]*x[1]*x[2]; pos = 0; cst = kind == "c"
        for _ in range(steps):
            m = r.randrange(12)
            if m == 0 and pos < n: ops.append("mv ++"); pos += 1
            elif m == 1 and pos > 0: ops.append("mv --"); pos -= 1
            elif m == 2 and pos < n: ops.append("mv p++"); pos += 1
            elif m == 3 and pos > 0: ops.append("mv p--"); pos -= 1
            elif m in (4, 5, 6, 7):
                t = r.randint(0, n) if r.random() < .6 else max(0, min(n, pos + r.choice([-x[0]-1, -x[0], -x[0]+1, -1, 0, 1, x[0]-1, x[0], x[0]+1, x[0]*x[1], -x[0]*x[1]])))
                d = t - pos
                ops.append({4: "mv += %d" % d, 5: "mv -= %d" % -d, 6: "mv + %d" % d, 7: "mv - %d" % -d}[m]); pos = t
            elif m == 8: t = r.randrange(n); ops.append("mv [] %d" % (t - pos))
            elif m == 9: ops.append("cmp %d %d" % (r.randint(0, n), r.randint(0, n)))
            elif m == 10 and pos < n: ops.append("mv wr")
            elif m == 11 and not cst and r.random() < .15: ops.append("conv"); cst = True
        return ops
    for _ in range(500 if QUICK else 8000):
        g, o, x = rand_window(r, 6)
        L.append(session(g, o, x, r.choice("mc"), 40))
    # systematic: every start position, every target, for some windows
    for g, o, x in ([((4, 3, 3), (1, 1, 0), (2, 2, 2)), ((3, 4, 2), (0, 1, 1), (3, 2, 1)), ((5, 1, 3), (2, 0, 1), (2, 1, 2))]):
        n = x[0]*x[1]*x[2]
        for kind in "mc":
            ops = ["iter %s %s %s %s" % (kind, s3(g), s3(o), s3(x))]; pos = 0
            for a in range(n+1):
                for b in range(n+1):
                    ops.append("mv += %d" % (a-pos)); ops.append("mv %s %d" % ("+=" if (a+b) % 2 else "+", b-a)); pos = b
            L.append(ops)
    for _ in range(250 if QUICK else 4000):
        t = r.choice(TYPES); dim = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        gm = [r.randint(0, 2) if dim[d] > 1 else 0 for d in range(3)]; gp = [r.randint(0, 2) if dim[d] > 1 else 0 for d in range(3)]
        vm = [r.randint(0, k) for k in gm]; vp = [r.randint(0, k) for k in gp]
        bc = [r.randint(0, 1) if dim[d] > 1 else 0 for d in range(3)]
        L.append(["walk %s %s %s %s %s %s %s" % (t, s3(dim), s3(gm), s3(gp), s3(bc), s3(vm), s3(vp))])
    run(c, group(L, 10, "i"))

def p09(c):
    c.model_check("MCGeometry", "MCGeometryG.cfg")
    r = c.rng; L = []
    for _ in range(600 if QUICK else 10000):
        regs = [([0]*3, [0]*3) for _ in range(6)]
        inf = lambda g: all(v >= INF for v in g[0]+g[1])
        add = lambda a, b: a if inf(a) else b if inf(b) else ([x+y for x, y in zip(a[0], b[0])], [x+y for x, y in zip(a[1], b[1])])
        ops = ["gset1 %d 0" % k for k in range(6)]
        def setreg(k, m, p):
            regs[k] = (list(m), list(p))
        for _ in range(25):
            op = r.choice(["gset6", "gsetv", "gset1", "gcopy", "gadd", "gsub", "gaddeq", "gsubeq", "gmin", "gp2g", "gsetm", "gsetp", "geq", "geq", "gmin", "gadd"])
            k, a, b = r.randrange(6), r.randrange(6), r.randrange(6)
            rv = lambda: [r.randint(0, 4) for _ in range(3)]
            if op in ("gset6", "gsetv"):
                m, p = (rv(), rv())
                if r.random() < .12: m, p = [INF]*3, [INF]*3
                ops.append("%s %d %s %s" % (op, k, s3(m), s3(p))); setreg(k, m, p)
            elif op == "gset1":
                n = r.choice([0, 1, 2, 3, INF]); ops.append("gset1 %d %d" % (k, n)); setreg(k, [n]*3, [n]*3)
            elif op == "gcopy": ops.append("gcopy %d %d" % (k, a)); regs[k] = regs[a]
            elif op == "gadd": ops.append("gadd %d %d %d" % (k, a, b)); regs[k] = add(regs[a], regs[b])
            elif op == "gaddeq": ops.append("gaddeq %d %d" % (k, a)); regs[k] = add(regs[k], regs[a])
            elif op in ("gsub", "gsubeq"):
                A, B = (regs[a], regs[b]) if op == "gsub" else (regs[k], regs[a])
                if inf(A) and not inf(B): continue
                if not inf(B):
                    m = [x-y for x, y in zip(A[0], B[0])]; p = [x-y for x, y in zip(A[1], B[1])]
                    if min(m+p) < 0: continue
                    new = (m, p)
                else: new = None
                ops.append("gsub %d %d %d" % (k, a, b) if op == "gsub" else "gsubeq %d %d" % (k, a))
                if new: regs[k] = new
            elif op == "gmin":
                ops.append("gmin %d %d %d" % (k, a, b)); regs[k] = ([min(x, y) for x, y in zip(regs[a][0], regs[b][0])], [min(x, y) for x, y in zip(regs[a][1], regs[b][1])])
            elif op == "gp2g":
                v = [r.randint(-3, 3) for _ in range(3)]; ops.append("gp2g %d %s" % (k, s3(v))); setreg(k, [max(0, -x) for x in v], [max(0, x) for x in v])
            elif op == "gsetm": v = rv() if r.random() < .9 else [INF]*3; ops.append("gsetm %d %s" % (k, s3(v))); setreg(k, v, regs[k][1])
            elif op == "gsetp": v = rv() if r.random() < .9 else [INF]*3; ops.append("gsetp %d %s" % (k, s3(v))); setreg(k, regs[k][0], v)
            elif op == "geq":
                if r.random() < .4:   # make them differ in exactly one face
                    m, p = list(regs[a][0]), list(regs[a][1]); q = r.choice([m, p]); q[r.randrange(3)] += 1
                    if max(m+p) < INF: ops.append("gsetv %d %s %s" % (k, s3(m), s3(p))); setreg(k, m, p)
                ops.append("geq %d %d" % (k, a))
            # a half-infinite count is no ghost count; keep out of the domain
            if any(any(v >= INF for v in g[0]+g[1]) and not inf(g) for g in regs):
                ops.append("gset1 %d 1" % k); setreg(k, [1]*3, [1]*3)
        L.append(ops)
    run(c, group(L, 10, "g"))

def p10(c):
    c.model_check("MCGeometry", "MCGeometryS.cfg")
    r = c.rng; L = [["traits " + " ".join(TYPES)]]
    for t in TYPES:
        for bc in itertools.product([0, 1], repeat=3):
            for _ in range(3 if QUICK else 40):
                dim = [r.choice([1, 2, 3, 4, 5, 8]) for _ in range(3)]
                gm = [r.randint(0, 3) for _ in range(3)]; gp = [r.randint(0, 3) for _ in range(3)]
                L.append(["sizing %s %s %s %s %s %d" % (t, s3(dim), s3(gm), s3(gp), s3(bc), r.randint(0, 1))])
    run(c, group(L, 20, "s"))

def p19(c):
    c.model_check("MCGeometry", "MCGeometryS.cfg")
    r = c.rng; L = []
    for t in TYPES:
        for d in range(3):
            for _ in range(4 if QUICK else 40):
                dim = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
                gm = [r.randint(0, 2) if dim[q] > 1 else 0 for q in range(3)]; gp = [r.randint(0, 2) if dim[q] > 1 else 0 for q in range(3)]
                bc = [r.randint(0, 1) if dim[q] > 1 else 0 for q in range(3)]
                dx = [r.choice([1, 2, 4, 8, 16, 3, 5]) for _ in range(3)]
                L.append(["grid %s %d %s %s %s %s %s" % (t, d, s3(dim), s3(dx), s3(gm), s3(gp), s3(bc))])
    run(c, group(L, 12, "c"))

def p33(c):
    c.model_check("MCGeometry", "MCGeometryG.cfg")
    r = c.rng; L = [["triplets"]]
    rng = lambda: [r.randint(-9, 9) for _ in range(3)]
    for _ in range(1500 if QUICK else 20000):
        a = rng(); b = rng() if r.random() < .7 else list(a)
        if r.random() < .3: b = list(a); b[r.randrange(3)] += 1
        k = r.randint(-5, 5)
        if r.random() < .4:                        # larger values: exact quotients and their neighbours
            k = r.choice([3, 7, 49, 98, 103, 107, 161, 187, 196, 197, r.randint(1, 500)]) * r.choice([1, -1]); b = [r.choice([1, -1])*r.choice([3, 49, 98, 103, r.randint(1, 300)]) for _ in range(3)]
            a = [r.randint(-90, 90)*r.choice([k, b[d]]) + r.choice([0, 0, 0, 1, -1]) for d in range(3)]
        L.append(["ivec %s %s %d" % (s3(a), s3(b), k)])
    run(c, group(L, 60, "v"))

CHECKS = {"P04": p04, "P05": p05, "P06": p06, "P09": p09, "P10": p10, "P19": p19, "P33": p33}
