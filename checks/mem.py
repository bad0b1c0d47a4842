"""P01 P02 P03 P07 P08 P11: pool, shared handles, store, field views, rejected requests, masks."""
from vlib import *
from geom import s3

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"}
TYPES = ["SVol", "SSurfX", "SSurfZ", "XVol", "XSurfX", "YSurfZ", "ZVol"]
BCX = {"SVol": (0,0,0), "SSurfX": (1,0,0), "SSurfZ": (0,0,1), "XVol": (1,0,0), "XSurfX": (0,0,0), "YSurfZ": (0,0,1), "ZVol": (0,0,1)}
BADM = ["vec", "cuda", "ocl", "mik", "dbg", "unk"]

def mem(c, conf="serial"): return build("mem", ["mem.cpp"], conf=conf, flags=["-fsanitize=address", "-g1"])
def run(c, cases, exe, tag="mem"):
    files = c.run_cases(exe, cases, tag, env=ASAN)
    c.validate("TraceMem", files, cases, exe, henv=ASAN)

def p01(c):
    c.model_check("PoolImpl", "PoolImpl.cfg" if QUICK else "PoolImplT.cfg", timeout=800)
    r = c.rng; cases = {}
    for i in range(300 if QUICK else 4000):
        t = ["double", "float", "uint"][i % 3]
        sizes = r.sample([1, 3, 9, 10, 11, 20, 50, 99, 100, 101, 109, 110, 111, 121, 200, 1000], r.randint(2, 6))
        if i % 4 == 0: sizes.append(r.choice([20000, 131072]))
        ops = ["pool " + t]; live = []; nk = 0
        bias = r.choice([.35, .5, .65])
        for _ in range(r.randint(20, 90)):
            x = r.random()
            if x < .04: ops.append("bad get %s 0" % r.choice(BADM))
            elif x < .07 and live: ops.append("bad put %s %d" % (r.choice(BADM), r.choice(live)))
            elif x < .09: ops.append("get 9999 %d" % r.choice([1500000000, 2000000000]))
            elif live and r.random() < bias:
                k = live.pop(r.choice([0, -1, r.randrange(len(live))])); ops.append("put %d" % k)
            elif len(live) < 25:
                nk += 1; ops.append("get %d %d" % (nk, r.choice(sizes))); live.append(nk)
        cases["p%d" % i] = ops
    # waves: many buffers handed out at once, returned in some order, asked for again
    for i in range(12 if QUICK else 60):
        t = ["double", "float", "uint"][i % 3]; ops = ["pool " + t]; live = []; nk = 0
        sizes = r.sample([1, 9, 12, 40, 100, 101, 300, 1000], r.choice([1, 2, 3])); N = r.choice([20, 40, 70, 130] if QUICK else [40, 130, 300, 700])
        for _ in range(3):
            for _ in range(N - len(live)): nk += 1; ops.append("get %d %d" % (nk, r.choice(sizes))); live.append(nk)
            order = r.choice([0, 1, 2]); keep = r.choice([0, 0, 3])
            if order == 1: live.reverse()
            if order == 2: r.shuffle(live)
            while len(live) > keep: ops.append("put %d" % live.pop())
        cases["w%d" % i] = ops
    run(c, cases, mem(c))

# ---- a mirror of which slots share which buffers, so that only meaningful sequences are generated
class Mirror:
    def __init__(m, r):
        m.r, m.sl, m.ob, m.ops, m.stamp = r, {}, [], ["slots"], 0
    def v(m): m.stamp += 1000; return m.stamp
    def dims(m, small=False):
        r = m.r
        dim = [r.choice([1, 2, 3] if small else [1, 2, 2, 3, 4]) for _ in range(3)]
        gm = [r.randint(0, 2) if dim[d] > 1 and r.random() < .6 else 0 for d in range(3)]; gp = [r.randint(0, 2) if dim[d] > 1 and r.random() < .6 else 0 for d in range(3)]
        bc = [r.randint(0, 1) if dim[d] > 1 else 0 for d in range(3)]
        return dim, gm, gp, bc
    def ds(m, D): return " ".join(s3(x) for x in D)
    def obj(m, t, D, owner, buf=None):
        dim, gm, gp, bc = D
        g = [dim[d] + gm[d] + gp[d] + BCX[t][d]*bc[d] if dim[d] > 1 else 1 for d in range(3)]
        m.ob.append(dict(t=t, g=g, o=[0]*3, x=list(g), gm=gm, gp=gp, vm=list(gm), vp=list(gp), bc=bc, owner=owner, buf=len(m.ob) if buf is None else buf, view=False, bad=False, wio=list(gm), wix=[g[d]-gm[d]-gp[d] for d in range(3)]))
        return len(m.ob)-1
    def live(m): return sorted({o for _, o in m.sl.values() if o is not None})
    def handles(m): return [k for k in m.sl if m.sl[k][0] == "h"]
    def fields(m): return [k for k in m.sl if m.sl[k][1] is not None]
    def free(m):
        f = [k for k in range(10) if k not in m.sl]
        return m.r.choice(f) if f else None
    def wouldkill(m, k):
        kd, o, t = m.sl[k][0], m.sl[k][1], 0
        if o is None: return None
        if kd == "h" and sum(1 for q in m.handles() if m.sl[q][1] == o) > 1: return None
        return o
    def prekill(m, k, keep=()):
        """deletes everything that shares memory with the object about to die; False if that would delete a slot still needed"""
        o = m.wouldkill(k)
        if o is None or m.ob[o]["owner"] == "none": return True
        sh = [q for q in m.sl if q != k and m.sl[q][1] is not None and m.sl[q][1] != o and m.ob[m.sl[q][1]]["buf"] == m.ob[o]["buf"]]
        if any(q in keep for q in sh): return False
        for q in sh: m.dele(q)
        return True
    def dele(m, k):
        if m.prekill(k): m.ops.append("del %d" % k); del m.sl[k]
    def setdrop(m, k, keep=()): return m.prekill(k, keep)

def gen_slots(r, n, weights, small=False, types=None):
    m = Mirror(r); T = types or TYPES; kinds = list(weights); w = [weights[k] for k in kinds]
    for _ in range(n):
        op = r.choices(kinds, w)[0]; f = m.free(); H = m.handles(); F = m.fields()
        t = r.choice(T)
        ty = lambda k: m.sl[k][2]
        if op in ("hEmpty", "hNull") and f is not None: m.ops.append("%s %d %s" % (op, f, t)); m.sl[f] = ("h", None, t)
        elif op in ("hStore", "hUser", "fInt", "fInt0", "fExt") and f is not None:
            D = m.dims(small); m.ops.append("%s %d %s %s %d" % (op, f, t, m.ds(D), m.v()))
            o = m.obj(t, D, {"hStore": "store", "fInt": "self", "fInt0": "self"}.get(op, "none")); m.sl[f] = (op[0], o, t)
        elif op == "hAsgRaw" and H:
            k = r.choice(H); D = m.dims(small)
            m.setdrop(k); m.ops.append("hAsgRaw %d %s %s %d" % (k, ty(k), m.ds(D), m.v())); m.sl[k] = ("h", m.obj(ty(k), D, "none"), ty(k))
        elif op in ("hAsgNull", "hDetach") and H:
            k = r.choice(H); m.setdrop(k); m.ops.append("%s %d %s" % (op, k, ty(k))); m.sl[k] = ("h", None, ty(k))
        elif op == "hCopy" and H and f is not None:
            j = r.choice(H); m.ops.append("hCopy %d %s %d" % (f, ty(j), j)); m.sl[f] = ("h", m.sl[j][1], ty(j))
        elif op == "hAsg" and H:
            k = r.choice(H); J = [j for j in H if ty(j) == ty(k)]; j = r.choice(J)
            if m.sl[j][1] != m.sl[k][1]: m.setdrop(k, (j,))
            if j in m.sl: m.ops.append("hAsg %d %s %d" % (k, ty(k), j)); m.sl[k] = ("h", m.sl[j][1], ty(k))
        elif op == "del" and m.sl: m.dele(r.choice(list(m.sl)))
        elif op == "hGet" and f is not None:
            J = [j for j in F if not m.ob[m.sl[j][1]]["view"]]
            if not J: continue
            j = r.choice(J); p = m.ob[m.sl[j][1]]
            x = [p["x"][d] + p["bc"][d]*(BCX[t][d]-BCX[p["t"]][d]) for d in range(3)]
            if any(x[d] - p["vm"][d] - p["vp"][d] < 1 for d in range(3)): continue
            m.ops.append("hGet %d %s %d %s %d" % (f, t, j, ty(j), m.v()))
            # the mirror only needs shape and sharing
            o = m.obj(t, ([1, 1, 1], [0]*3, [0]*3, [0]*3), "store"); q = m.ob[o]
            q.update(g=list(x), x=list(x), gm=list(p["vm"]), gp=list(p["vp"]), vm=list(p["vm"]), vp=list(p["vp"]), bc=p["bc"], wio=list(p["vm"]), wix=[x[d]-p["vm"][d]-p["vp"][d] for d in range(3)])
            m.sl[f] = ("h", o, t)
        elif op in ("fCopy", "fWin", "fReshape") and F and f is not None:
            j = r.choice(F); p = m.ob[m.sl[j][1]]
            q = dict(p); q["owner"] = "none"; q["o"] = list(p["o"]); q["x"] = list(p["x"])
            if op == "fCopy": m.ops.append("fCopy %d %s %d" % (f, ty(j), j)); q["vm"] = list(p["vm"]); q["vp"] = list(p["vp"])
            elif op == "fWin":
                o = [r.randint(0, g-1) for g in p["g"]]; x = [r.randint(1, p["g"][d]-o[d]) for d in range(3)]
                if r.random() < .3: o, x = list(p["o"]), list(p["x"])
                m.ops.append("fWin %d %s %d %s %s" % (f, ty(j), j, s3(o), s3(x))); q.update(o=o, x=x, view=True, vm=list(p["gm"]), vp=list(p["gp"]))
            else:
                sh = [r.randint(-p["o"][d], p["x"][d]-1) for d in range(3)] if r.random() < .5 else [r.randint(0, min(1, p["x"][d]-1)) for d in range(3)]
                em = [r.randint(1, p["g"][d]-p["o"][d]-sh[d]) - p["x"][d] for d in range(3)]
                m.ops.append("fReshape %d %s %d %s %s" % (f, ty(j), j, s3(em), s3(sh))); q.update(o=[p["o"][d]+sh[d] for d in range(3)], x=[p["x"][d]+em[d] for d in range(3)], view=True, vm=list(p["gm"]), vp=list(p["gp"]))
            m.ob.append(q); m.sl[f] = ("f", len(m.ob)-1, ty(j))
        elif op == "fValid" and F:
            k = r.choice(F); p = m.ob[m.sl[k][1]]
            vm = [r.randint(0, a) for a in p["gm"]]; vp = [r.randint(0, a) for a in p["gp"]]
            o = [p["o"][d]+p["vm"][d]-vm[d] for d in range(3)]; x = [p["x"][d]-(p["vm"][d]-vm[d])-p["vp"][d]+vp[d] for d in range(3)]
            if any(o[d] < 0 or x[d] < 1 or o[d]+x[d] > p["g"][d] for d in range(3)): continue
            m.ops.append("fValid %d %s %s %s" % (k, ty(k), s3(vm), s3(vp))); p.update(o=o, x=x, vm=vm, vp=vp)
        elif op == "fAsg" and F:
            k = r.choice(F); same = [j for j in F if ty(j) == ty(k)]
            eq = [j for j in same if m.ob[m.sl[j][1]]["g"] == m.ob[m.sl[k][1]]["g"] and m.ob[m.sl[j][1]]["o"] == m.ob[m.sl[k][1]]["o"] and m.ob[m.sl[j][1]]["x"] == m.ob[m.sl[k][1]]["x"] and j != k]
            j = r.choice(eq) if eq and r.random() < .8 else r.choice(same)
            m.ops.append("fAsg %d %s %d" % (k, ty(k), j))
        elif op == "twin" and F and f is not None:      # a second field of the same shape, for assignments
            k = r.choice(F); p = m.ob[m.sl[k][1]]
            if p["owner"] == "none" or p["view"]: continue
            n = [p["g"][d]-p["gm"][d]-p["gp"][d]-BCX[p["t"]][d]*p["bc"][d] for d in range(3)]
            if any(x < 1 for x in n) or any(n[d] == 1 and p["g"][d] > 1 for d in range(3)): continue
            D = (n, p["gm"], p["gp"], p["bc"]); m.ops.append("fInt %d %s %s %d" % (f, ty(k), m.ds(D), m.v())); m.sl[f] = ("f", m.obj(ty(k), D, "self"), ty(k))
            o = m.ob[-1]; o2 = [p["o"][d] for d in range(3)]
            f2 = m.free()
            if f2 is not None and p["o"] != [0]*3 or p["x"] != p["g"]:
                pass
            if f2 is not None and r.random() < .7:      # equal windows onto both
                f3 = None
                w0 = [r.randint(0, g-1) for g in p["g"]]; x0 = [r.randint(1, p["g"][d]-w0[d]) for d in range(3)]
                pairs = [(f2, f)]
                m.sl[f2] = ("f", None, ty(k)); f3 = m.free(); del m.sl[f2]
                if f3 is not None: pairs.append((f3, k))
                for a, b in pairs:
                    q = dict(m.ob[m.sl[b][1]]); q.update(owner="none", o=list(w0), x=list(x0), view=True, vm=list(q["gm"]), vp=list(q["gp"]))
                    m.ops.append("fWin %d %s %d %s %s" % (a, ty(b), b, s3(w0), s3(x0))); m.ob.append(q); m.sl[a] = ("f", len(m.ob)-1, ty(b))
                if len(pairs) == 2: m.ops.append("fAsg %d %s %d" % (f2, ty(k), f3))
        elif op in ("wrf", "wri", "wrn", "fill") and F:
            k = r.choice(F); p = m.ob[m.sl[k][1]]
            if op == "wrf": m.ops.append("wrf %d %s %d %d" % (k, ty(k), r.randrange(p["g"][0]*p["g"][1]*p["g"][2]), m.v()))
            elif op == "wri": m.ops.append("wri %d %s %d %d" % (k, ty(k), r.randrange(p["x"][0]*p["x"][1]*p["x"][2]), m.v()))
            elif op == "wrn": m.ops.append("wrn %d %s %d %d" % (k, ty(k), r.randrange(max(1, p["wix"][0]*p["wix"][1]*p["wix"][2])), m.v()))
            else: m.ops.append("fill %d %s %d" % (k, ty(k), m.v()))
        elif op in ("addc", "findc", "fv", "cfv") and F:
            k = r.choice(F); mm = r.choice(BADM + ["ram"]); m.ops.append("%s %d %s %s %d" % (op, k, ty(k), mm, r.choice([0, 0, 1, 5])))
        elif op in ("hasc", "remc") and F: k = r.choice(F); m.ops.append("%s %d %s" % (op, k, ty(k)))
        elif op == "fBad": m.ops.append("fBad 0 %s %s 7 %s %d %s" % (t, m.ds(m.dims(small)), r.choice(BADM), r.choice([0, 2]), r.choice(["int", "ext"])))
        elif op == "hStoreBad": m.ops.append("hStoreBad 0 %s %s %s %d" % (t, m.ds(m.dims(small)), r.choice(BADM), r.choice([0, 2])))
    return m.ops

def tour(c, cfg="MCHandles.cfg", maxlen=60):
    """Edge-covering call sequences from TLC's state graph of the handle machine."""
    out, st = c.model_check("MCHandles", cfg, env={"EDGES": "1"}, workers=1)
    import collections
    succ = collections.defaultdict(list); init = None; ids = {}
    for m in re.finditer(r'^"?EDGE\|(.*)\|(h\w+ .*|del .*)\|(.*?)"?$', out, re.M):
        a = ids.setdefault(m.group(1), len(ids)); b = ids.setdefault(m.group(3), len(ids)); succ[a].append((m.group(2), b))
    edges = sum(len(v) for v in succ.values())
    if len(ids) != st["distinct"]: raise CheckError("the printed graph has %d states, TLC reports %d" % (len(ids), st["distinct"]))
    todo = {a: list(range(len(v))) for a, v in succ.items()}
    # breadth-first tree from the initial state
    pred = {0: None}; q = collections.deque([0])
    while q:
        a = q.popleft()
        for op, b in succ[a]:
            if b not in pred: pred[b] = (a, op); q.append(b)
    def path(s):
        p = []
        while pred[s] is not None: p.append(pred[s][1]); s = pred[s][0]
        return p[::-1]
    seqs = []; left = edges
    order = sorted(todo, key=lambda s: -len(path(s)))
    for s in order:
        while todo[s]:
            p = path(s); cur = s
            while len(p) < maxlen:
                if todo.get(cur):
                    e = todo[cur].pop(); left -= 1
                else:
                    # a short detour to a state with edges left
                    seen = {cur: []}; qq = collections.deque([cur]); hit = None
                    while qq and hit is None:
                        x = qq.popleft()
                        if len(seen[x]) >= 3: continue
                        for i, (op, b) in enumerate(succ[x]):
                            if b not in seen:
                                seen[b] = seen[x] + [op]
                                if todo.get(b): hit = b; break
                                qq.append(b)
                    if hit is None: break
                    p += seen[hit]; cur = hit; continue
                op, cur = succ[cur][e]; p.append(op)
            seqs.append(p)
    c.extra["model_edges_replayed"] = edges
    c.log("replaying all %d transitions of the handle machine in %d sequences" % (edges, len(seqs)))
    return seqs

def p02(c):
    cases = {"t%d" % i: ["slots"] + s for i, s in enumerate(tour(c))}
    W = dict(hEmpty=1, hNull=1, hStore=5, hUser=2, hAsgRaw=2, hAsgNull=1, hDetach=3, hCopy=6, hAsg=8, **{"del": 6}, fill=2, hGet=2)
    for i in range(250 if QUICK else 4000): cases["r%d" % i] = gen_slots(c.rng, c.rng.randint(20, 60), W, small=True, types=c.rng.sample(TYPES, 2))
    run(c, cases, mem(c))

def p03(c):
    c.model_check("MCHandles"); c.model_check("PoolImpl")
    W = dict(hStore=8, hGet=9, hCopy=2, hAsg=2, hDetach=1, fInt=2, fExt=1, fill=4, wrf=3, fValid=3, **{"del": 7})
    cases = {"s%d" % i: gen_slots(c.rng, c.rng.randint(20, 50), W) for i in range(300 if QUICK else 5000)}
    run(c, cases, mem(c))

def p07(c):
    c.model_check("MCHandles")
    W = dict(hStore=2, fInt=4, fInt0=1, fExt=3, fCopy=6, fWin=5, fReshape=4, fValid=5, fAsg=6, twin=4, wrf=3, wri=5, wrn=4, fill=4, hCopy=1, **{"del": 6})
    cases = {"f%d" % i: gen_slots(c.rng, c.rng.randint(20, 60), W, types=c.rng.sample(TYPES, 2)) for i in range(300 if QUICK else 5000)}
    run(c, cases, mem(c))

def p08(c):
    W = dict(hStore=3, fInt=3, fExt=2, fCopy=2, fWin=1, addc=6, findc=4, fv=5, cfv=4, hasc=2, remc=2, fBad=3, hStoreBad=3, wri=3, fill=2, fAsg=3, fValid=2, wrn=1, **{"del": 3})
    c.model_check("MCHandles")
    cases = {"b%d" % i: gen_slots(c.rng, c.rng.randint(20, 50), W, small=True) for i in range(250 if QUICK else 4000)}
    run(c, cases, mem(c))

def p11(c):
    c.model_check("MCGeometry", "MCGeometryW.cfg")
    r = c.rng; cases = {}
    for i in range(250 if QUICK else 4000):
        ops = ["masks"]; live = {}; parent = {}
        for _ in range(r.randint(4, 9)):
            k = next(q for q in range(100) if q not in live)
            x = r.random()
            if x < .5 or not live:
                t = r.choice(TYPES); dim = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(3)]
                if r.random() < .1: dim = [r.choice([30, 33, 17]), r.choice([1, 3]), 1]
                gm = [r.randint(0, 2) if dim[d] > 1 else 0 for d in range(3)]; gp = [r.randint(0, 2) if dim[d] > 1 else 0 for d in range(3)]; bc = [r.randint(0, 1) if dim[d] > 1 else 0 for d in range(3)]
                hi = [dim[d] + BCX[t][d]*bc[d] + gp[d] for d in range(3)]
                n = r.choice([0, 1, 2, 5, 20]); pts = [[r.randint(-gm[d], hi[d]-1) for d in range(3)] for _ in range(n)]
                if n > 2 and r.random() < .5: pts[-1] = pts[0]
                if r.random() < .05: pts = [[a, b, e] for a in range(-gm[0], hi[0]) for b in range(-gm[1], hi[1]) for e in range(-gm[2], hi[2])]; r.shuffle(pts)
                v = ""
                if r.random() < .35:
                    vm = [r.randint(0, a) for a in gm]; vp = [r.randint(0, a) for a in gp]; v = " %s %s" % (s3(vm), s3(vp))
                    pts = [p for p in pts if all(-vm[d] <= p[d] < hi[d] - gp[d] + vp[d] for d in range(3))]
                ops.append("mk %d %s %s %s %s %s %d %s%s" % (k, t, s3(dim), s3(gm), s3(gp), s3(bc), len(pts), " ".join(s3(p) for p in pts), v))
                g = [dim[d]+gm[d]+gp[d]+BCX[t][d]*bc[d] if dim[d] > 1 else 1 for d in range(3)]
                live[k] = (t, g, [0]*3 if not v else [gm[d]-vm[d] for d in range(3)], g if not v else [g[d]-(gm[d]-vm[d])-(gp[d]-vp[d]) for d in range(3)]); parent[k] = k
            elif x < .85:
                j = r.choice(list(live)); t, g, o, xx = live[j]; y = r.random()
                if y < .4: ops.append("cp %d %s %d" % (k, t, j)); live[k] = live[j]
                elif y < .7:
                    o2 = [r.randint(0, a-1) for a in g]; x2 = [r.randint(1, g[d]-o2[d]) for d in range(3)]
                    ops.append("win %d %s %d %s %s" % (k, t, j, s3(o2), s3(x2))); live[k] = (t, g, o2, x2)
                else:
                    sh = [r.randint(0, min(1, xx[d]-1)) for d in range(3)]; em = [r.randint(1, g[d]-o[d]-sh[d]) - xx[d] for d in range(3)]
                    ops.append("rsh %d %s %d %s %s" % (k, t, j, s3(em), s3(sh))); live[k] = (t, g, [o[d]+sh[d] for d in range(3)], [xx[d]+em[d] for d in range(3)])
                parent[k] = parent[j]
            else:
                k = r.choice(list(live))
                if parent[k] == k:
                    for q in [q for q in live if parent[q] == k and q != k]: ops.append("del %d" % q); del live[q]
                ops.append("del %d" % k); del live[k]
        cases["m%d" % i] = ops
    run(c, cases, mem(c))

CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P07": p07, "P08": p08, "P11": p11}
