"""P14 P23-P28 P31: concurrency.  Real code under a controlled scheduler, traces validated with TLC."""
from vlib import *
import nebo, nebogen as ng

def p27(c):
    c.model_check("Semaphore", "Semaphore.cfg" if QUICK else "SemaphoreT.cfg")
    exe = build("sem", ["sem.cpp", "vsched.cpp"], conf="threads", libs=(), flags=TSAN)
    r = c.rng; cases = {}; n = 40 if QUICK else 400
    for i in range(n):
        init = r.choice([0, 0, 0, 1, 2, -1]); nt = r.randint(2, 4)
        ths = ["".join(r.choice("wwp" if r.random() < .5 else "wpp") for _ in range(r.randint(1, 4))) for _ in range(nt)]
        L = ["init %d" % init] + ["thread " + t for t in ths] + ["quiet"]
        if r.random() < .5: L += ["do " + "p"*r.randint(1, 4), "quiet"]
        L += ["explore random %d %d %g %g .05" % (60 if QUICK else 400, r.randint(1, 10**6), r.choice([.1, .3, .6]), r.choice([0, .01, .05])),
              "explore pct %d %d %d %g" % (60 if QUICK else 400, r.randint(1, 10**6), r.randint(1, 4), r.choice([0, .05]))]
        cases["s%d" % i] = L
    # small programs: every schedule with few preemptions
    for i, (init, ths) in enumerate([(0, ["w", "p"]), (0, ["w", "w", "pp"]), (0, ["w", "w", "p", "p"]), (1, ["w", "w", "p"]), (0, ["ww", "pp"]), (0, ["wp", "pw"]), (2, ["ww", "w", "p"]), (0, ["w", "w", "w", "ppp"])]):
        cases["d%d" % i] = ["init %d" % init] + ["thread " + t for t in ths] + ["quiet", "explore dfs %d %d" % (1500 if QUICK else 60000, 1 if QUICK else 3)]
    c.validate("TraceSem", c.explored(exe, cases, "sem"), cases, exe)

def PRIO(r): return r.choice([0, 1, 2, 3, r.randint(0, 9), r.randint(0, 9)])

def pool_program(r, prop):
    kind = r.choice(["fifo", "lifo", "prio"]) if prop == "P24" else r.choice(["fifo", "fifo", "prio", "lifo"])
    n = r.choice([1, 1, 2]) if prop == "P24" else r.choice([1, 2, 2, 3, 4])
    task = [0]; L = []; gates = set()
    shrink = prop in ("P23", "P25") or r.random() < .3
    def new_task(depth=0):
        task[0] += 1; k = task[0]
        x = r.random()
        if x < .25 and depth == 0: g = r.randint(1, 2); gates.add(g); L.append("task %d gate %d" % (k, g))
        elif x < .4 and task[0] < 7: j = new_task(1); L.append("task %d sched %d %d" % (k, j, PRIO(r)))
        elif x < .45 and prop in ("P23",): L.append("task %d die" % k)
        elif x < .5 and prop == "P25": L.append("task %d %s %d" % (k, r.choice(["resize", "limit"]), r.randint(1, 4)))
        return k
    def op():
        x = r.random()
        if x < .5 and task[0] < 7: return "sched %d %d" % (new_task(), PRIO(r))
        if prop == "P26": return r.choice(["wait 0", "wait 1", "wait 2", "twait 0 %d" % r.randint(1, 3), "twait 1 1", "clear", "resize %d" % r.randint(1, 4), "pending"])
        if prop == "P25": return r.choice(["resize %d" % r.randint(1, 5), "resize %d" % r.randint(0, 3), "limit %d" % r.randint(1, 4), "limit 0", "size", "max"])
        if prop == "P24": return r.choice(["wait 0", "clear", "pending"] + ["sched %d %d" % (new_task(), PRIO(r))]*3) if task[0] < 7 else "empty"
        return r.choice(["clear", "pending", "empty", "active", "wait 0", "wait 1", "resize %d" % r.randint(1, 4), "limit %d" % r.randint(1, 3)])
    ncl = r.randint(1, 3)
    cl = [[op() for _ in range(r.randint(1, 4))] for _ in range(ncl)]
    L.append("pool %s %d" % (kind, n))
    if prop == "P24" and r.random() < .6:   # fill the queue behind a task which holds the worker
        g = 1; gates.add(1); task[0] += 1; L.insert(0, "task %d gate 1" % task[0]); L.append("main sched %d 9" % task[0]); L.append("quiet")
    for i, ops in enumerate(cl): L += ["cl %d %s" % (i+1, o) for o in ops]
    L.append("start " + " ".join(str(i+1) for i in range(ncl)))
    L.append("quiet")
    for g in sorted(gates): L += ["main open %d" % g] + (["quiet"] if r.random() < .5 else [])
    if prop == "P25":
        for _ in range(r.randint(0, 2)): L += ["main " + r.choice(["resize %d" % r.randint(1, 4), "limit %d" % r.randint(1, 4)]), "quiet"]
    if r.random() < .5: L += ["main sched %d 1" % (task[0]+1), "main sched %d 2" % (task[0]+2)]
    L += ["main resize %d" % r.randint(1, 3), "main limit %d" % r.randint(1, 3), "quiet"] + (["main size", "main max", "main active", "main pending"] if r.random() < .4 else []) + ["main destroy", "quiet"]
    return L

def pool_case(b, prop, r):
    """a program and a thread order for the real pool from a behaviour of PoolCore; the first task may be held by a gate"""
    n = b[0][1]["tgt"]; main, order, wait = [], [], set(); C = {"u": n+1, "any": n+2, "one": n+3}
    wid = lambda w: w if w <= n else w + 3
    for (_, p), (a, s) in zip(b, b[1:]):
        if a in ("StartDestroy", "Drain", "Term"): break
        if a == "Schedule": main.append("sched %d %d" % (s["born"], PRIO(r))); order.append(C["u"])
        elif a == "Resize": main.append("resize %d" % s["tgt"]); order.append(C["u"])
        elif a == "Limit": main.append("limit %d" % s["lim"]); order.append(C["u"])
        elif a == "Clear": main.append("clear"); order.append(C["u"])
        elif a == "StartWait": wait |= {v for v in ("any", "one") if p["wpc"][v] != s["wpc"][v]}
        elif a == "CheckWait":
            v = [v for v in ("any", "one") if p["wpc"][v] != s["wpc"][v] or (v in p["wi"]) != (v in s["wi"])]
            if v: order.append(C[v[0]])
        elif a in ("Fetch", "Wake", "Destructed"):
            w = [w for w in range(len(s["pc"])) if p["pc"][w] != s["pc"][w] or p["cur"][w] != s["cur"][w]] or [w for w in range(len(s["pc"])) if (w+1 in p["wt"]) != (w+1 in s["wt"])]
            if w: order.append(wid(w[0] + 1))
    if not main: return None
    L = ["task 1 gate 1", "pool fifo %d" % n] + ["cl 1 " + o for o in main] + (["cl 2 wait 0"] if "any" in wait else []) + (["cl 3 wait 1", "cl 3 open 1"] if "one" in wait else [])
    L += ["start " + " ".join(["1", "2", "3"]), "quiet", "main open 1", "quiet", "main resize 2", "main limit 2", "quiet"] + (["main sched 8 0", "quiet"] if r.random() < .5 else []) + ["main destroy", "quiet"]
    return L + ["explore turn %d %d %s" % (2 if QUICK else 6, r.randint(1, 10**6), " ".join(map(str, order)))]

def pool_model(c, prop):
    c.model_check("PoolCore", "PoolCore.cfg" if QUICK else "PoolCoreT.cfg", timeout=800)
    if not QUICK or prop in ("P23", "P26"): c.model_check("PoolCore", "PoolCoreL.cfg", timeout=600)
    cex = c.model_flaws("PoolCore", "PoolCore.cfg", ["taken", "clear", "exit", "leaving", "limit"])
    return [b for f in cex for b in cex[f]], tlc_simulate("PoolCore", "PoolCoreS.cfg", c.work, 150 if QUICK else 1500, 60, c.rng.randint(1, 10**6))

def pool_check(c, prop):
    cex, sim = pool_model(c, prop)
    exe = build("pool", ["pool.cpp", "vsched.cpp"], conf="threads", libs=(), flags=TSAN)
    r = c.rng; cases = {}
    for i in range(100 if QUICK else 400):
        L = pool_program(r, prop); k = 12 if QUICK else 40
        L += ["explore random %d %d %g %g %g" % (k, r.randint(1, 10**6), r.choice([.1, .3, .6]), r.choice([0, .002, .01]), r.choice([0, .02, .1])),
              "explore pct %d %d %d %g" % (k, r.randint(1, 10**6), r.randint(1, 5), r.choice([0, .02]))]
        cases["p%d" % i] = L
    # behaviours of the model: its programs in its order, and its programs in other orders
    for i, b in enumerate(cex * (4 if QUICK else 12) + sim):
        L = pool_case(b, prop, r)
        if L: cases["m%d" % i] = L + (["explore random %d %d .3 .002 0" % (6, r.randint(1, 10**6))] if i < len(cex) * 4 or i % 3 == 0 else [])
    c.validate("TracePool", c.explored(exe, cases, "pool"), cases, exe, cfg="TracePool%s.cfg" % prop)

def p28_program(r):
    task = [0]; L = []; gates = set()
    def new_task():
        task[0] += 1; k = task[0]; x = r.random()
        if x < .3: g = r.randint(1, 2); gates.add(g); L.append("task %d gate %d" % (k, g))
        elif x < .4: L.append("task %d %s %d" % (k, r.choice(["cap", "act"]), r.randint(0, 4)))
        elif x < .5: L.append("task %d %s" % (k, r.choice(["getcap", "getact"])))
        return k
    def op(quick=False):
        x = r.random()
        if x < .35 and task[0] < 6: return "sched %d %d" % (new_task(), PRIO(r))
        return r.choice(["cap %d" % r.randint(1, 5), "cap %d" % r.randint(-1, 3), "act %d" % r.randint(1, 6), "act %d" % r.randint(-1, 3), "getcap", "getact", "getact"] + (["wait 0"] if quick else []))
    ncl = r.choice([1, 1, 2, 2, 3])
    cl = [[op(True) for _ in range(r.randint(1, 5 if ncl == 1 else 3))] for _ in range(ncl)]
    L.append("pool %s 0" % r.choice(["gfifo", "gprio", "gtools"]))
    for i, ops in enumerate(cl): L += ["cl %d %s" % (i+1, o) for o in ops]
    L += ["start " + " ".join(str(i+1) for i in range(ncl)), "quiet"]
    for g in sorted(gates): L += ["main open %d" % g] + (["quiet"] if r.random() < .5 else [])
    for _ in range(r.randint(0, 3)): L += ["main " + r.choice(["cap %d" % r.randint(0, 5), "act %d" % r.randint(0, 6), "getact", "getcap"])] + (["quiet"] if r.random() < .6 else [])
    if r.random() < .6: L += ["main sched %d 1" % (task[0]+1), "main sched %d 2" % (task[0]+2)]
    L += ["quiet", "main getcap", "main getact", "main getcap"]
    return L

def p28(c):
    r = c.rng
    for conf in ("threads2", "threads") if QUICK else ("threads1", "threads2", "threads", "threads8"):
        exe = build("gpool", ["pool.cpp", "vsched.cpp"], conf=conf, libs=(), flags=TSAN); cases = {}
        for i in range(80 if QUICK else 300):
            k = 12 if QUICK else 40
            cases["%s_%d" % (conf, i)] = p28_program(r) + ["explore random %d %d %g %g %g" % (k, r.randint(1, 10**6), r.choice([.1, .3, .6]), r.choice([0, .002, .01]), r.choice([0, .02, .1])),
                                               "explore pct %d %d %d %g" % (k, r.randint(1, 10**6), r.randint(1, 5), r.choice([0, .02]))]
        c.validate("TracePool", c.explored(exe, cases, conf), cases, exe, cfg="TracePoolP28.cfg")

def p31_program(r):
    shapes = [(3,2,2), (2,2,3), (4,3,1), (4,4,1), (5,2,2), (7,3,1)]; mshapes = [(8,8,6), (8,6,8), (8,8,8)]
    L = []; live = set(); ncl = r.choice([2, 2, 3, 3, 4]); nxt = [0]
    kinds = r.choice([["raw"], ["st", "int"], ["st", "sx", "pr", "int"], ["int", "mask"], ["mask"], ["raw", "st", "sx", "pr", "int", "mask"]])
    shapes = r.sample(shapes, r.choice([1, 1, 2, 4]))
    def acq():
        s = nxt[0]; nxt[0] += 1; k = r.choice(kinds)
        if k == "raw": return s, "raw %d %d" % (s, r.choice([12, 12, 16, 30]))
        return s, "%s %d %d %d %d" % ((k, s) + r.choice(mshapes if k == "mask" else shapes))
    for _ in range(r.randint(0, 3)):          # some memory in circulation before the threads start
        s, o = acq(); L.append("main " + o); live.add(s)
    for s in sorted(live):
        if r.random() < .7: L.append("main put %d" % s); live.discard(s)
    pre = sorted(live); r.shuffle(pre)
    for i in range(1, ncl + 1):
        mine = [pre.pop()] if pre and r.random() < .5 else []
        for _ in range(r.randint(2, 5)):
            x = r.random()
            if x < .45 or not mine: s, o = acq(); mine.append(s)
            elif x < .75: s = mine.pop(r.randrange(len(mine))); live.discard(s); o = "put %d" % s
            elif x < .9: o = "use %d" % r.choice(mine)
            else: o = r.choice(["act 0 d", "tot 0 d", "act 0 m", "tot 0 m"])
            L.append("cl %d %s" % (i, o))
        live |= set(mine)
    L += ["start " + " ".join(map(str, range(1, ncl+1))), "quiet"]
    for s in sorted(live):
        if r.random() < .3: L.append("main use %d" % s)
        L.append("main put %d" % s)
    return L + ["quiet", "main " + acq()[1], "quiet"]

def p31(c):
    exe = build("store", ["store.cpp", "vsched.cpp"], conf="threads", flags=TSAN)
    r = c.rng; cases = {}
    for i in range(150 if QUICK else 700):
        k = 12 if QUICK else 60
        cases["m%d" % i] = p31_program(r) + ["explore random %d %d %g %g 0" % (k, r.randint(1, 10**6), r.choice([.1, .3, .6]), r.choice([.002, .01, .05])),
                                             "explore pct %d %d %d 0" % (k, r.randint(1, 10**6), r.randint(1, 5))]
    c.validate("TraceStore", c.explored(exe, cases, "store"), cases, exe, cfg="TraceStore.cfg")

def p14_progs(r, n):
    G = [ng.Gen(r, "int"), ng.Gen(r, "int", stencils=True), ng.Gen(r, "int", conds=True, stencils=True), ng.Gen(r, "tab", functions=True, conds=True)]
    def mk():
        g = r.choice(G)
        p = g.prog(r.choice(ng.TYPES + ["SV"]), r.choice([0,1,2,2,3]), alias=0.35) if g is G[0] else g.prog(r.choice(ng.TYPES), r.choice([1,2,2]))
        return nebo.interior(r, p)
    return nebo.gen_programs(r, n, mk)

def p14_case(r, progs, ids, small):
    """one case: programs which share one set of operands cannot be combined, so a case repeats one program"""
    i = r.choice(ids); p = progs[i]
    L = ng.make_case(r, p, i, parts=r.choice([None, None, 1, 2, 3, 4, 5, 7, 9]), throws=(r.random() < .08 and p.kind == "assign" and not p.lv), tries=25, **({"nmax": 3} if small else {"nmax": r.choice([4, 7, 11])}))
    if not L: return None
    assert L[-1] == "prog %d" % i
    act = []
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < .7: h = r.choice([1, 2, 3, 3, 4] if small else [1, 2, 3, 4, 6, 8]); act.append("threads %d %d" % (h, r.choice([h, r.randint(1, h + 1)])))
        act.append("prog %d" % i if r.random() < .7 else "par " + " ".join([str(i)]*r.randint(2, 3 if small else 4)))
    return L[:-1] + act

def p14(c):
    """Threaded assignment: the same statement specification, on builds with threads, natural and controlled schedules."""
    c.model_check("ThreadAssign", "ThreadAssign.cfg" if QUICK else "ThreadAssignT.cfg")
    r = c.rng; n = 90 if QUICK else 500
    progs = p14_progs(r, n)
    exe = nebo.build_programs(c, "t", progs, conf="threads")
    cases = {}
    for i in range(n):
        for j in range(6 if QUICK else 15):
            L = p14_case(r, progs, [i], False)
            if L: cases["t%d_%d" % (i, j)] = L
    files = c.run_cases(exe, cases, "t"); c.validate("TraceNebo", files, cases, exe)
    m = 24 if QUICK else 120
    progs2 = p14_progs(r, m)
    exe2 = nebo.build_programs(c, "u", progs2, conf="threads", flags=TSAN + ["-DVH_SCHED"], extra=["vsched.cpp"])
    cases = {}
    for i in range(m):
        for j in range(3 if QUICK else 8):
            L = p14_case(r, progs2, [i], True)
            if not L: continue
            k = 12 if QUICK else 80
            cases["u%d_%d" % (i, j)] = L + ["explore random %d %d %g %g %g" % (k, r.randint(1, 10**6), r.choice([.1, .3, .6]), r.choice([0, .01, .05]), r.choice([0, .02])),
                                            "explore pct %d %d %d %g" % (k, r.randint(1, 10**6), r.randint(1, 5), r.choice([0, .02]))]
    c.validate("TraceNebo", c.explored(exe2, cases, "u"), cases, exe2)
    c.extra["programs"] = len(progs) + len(progs2)

CHECKS = {"P31": p31, "P28": p28, "P14": p14, "P27": p27, "P23": lambda c: pool_check(c, "P23"), "P24": lambda c: pool_check(c, "P24"), "P25": lambda c: pool_check(c, "P25"), "P26": lambda c: pool_check(c, "P26")}
