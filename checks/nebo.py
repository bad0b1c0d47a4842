"""P12 P13 P15 P16 P17 P32: field expressions, stencils, conditionals, reductions, functions (serial back end)."""
import itertools, json
from vlib import *
import nebogen as ng

def gen_programs(rng, n, mk, tries=40):
    """n programs for which a case exists"""
    out = []
    while len(out) < n:
        p = mk()
        if p is None: continue
        if ng.make_case(rng, p, 0, tries=40): out.append(p)
        elif tries <= 0: break
    return out

def build_programs(c, name, progs, conf="serial", flags=(), per=None, opdb=False, extra=()):
    d = os.path.join(BUILD, "gen", c.prop); os.makedirs(d, exist_ok=True)
    per = per or max(6, (len(progs) + 2*NCPU - 1) // (2*NCPU))
    srcs = []
    for i in range(0, len(progs), per):
        fn = os.path.join(d, "%s%d.cpp" % (name, i)); text = ng.tu([(j, progs[j]) for j in range(i, min(len(progs), i+per))])
        if not os.path.exists(fn) or open(fn).read() != text: open(fn, "w").write(text)
        srcs.append(fn)
    if opdb:
        fn = os.path.join(d, "opdb.cpp"); open(fn, "w").write(ng.opdb_cpp()); srcs.insert(0, fn)
    # the big library source first, so that it does not start last
    lib = [os.path.join(REPO, s) for s in LIBSRC["stencil"]]
    return build(name + c.prop, lib + srcs + ["nebo_main.cpp"] + list(extra), conf=conf, libs=("structured",), flags=flags)

def make_cases(rng, progs, per, tag="c", **kw):
    cases = {}
    for i, p in enumerate(progs):
        for j in range(per):
            q = dict(kw)
            if p.kind == "assign" and not p.lv and not q.get("neg") and j == 1 and rng.random() < 0.4:
                L = ng.make_case(rng, p, i, throws=True, tries=25)
                if L: cases["%s%d_%d" % (tag, i, j)] = L; continue
            if j == 2 and "nmax" not in q: q["nmax"] = 7
            L = ng.make_case(rng, p, i, **q)
            if L: cases["%s%d_%d" % (tag, i, j)] = L
    return cases

def run(c, name, progs, per, **kw):
    exe = build_programs(c, name, progs, flags=kw.pop("flags", ()), conf=kw.pop("conf", "serial"))
    cases = make_cases(c.rng, progs, per, tag=name, **kw)
    files = c.run_cases(exe, cases, name)
    c.validate("TraceNebo", files, cases, exe)
    c.extra["programs"] = c.extra.get("programs", 0) + len(progs)
    for p in progs[:3]: c.samples.append({"statement": ng.cpp(p.ast), "destination": p.T})

def interior(rng, p):
    if not p.lv and p.kind == "assign" and rng.random() < 0.25: p.ug = False
    return p

def p12(c):
    c.model_check("MCNebo", "MCNebo2.cfg")
    r = c.rng; n = 45 if QUICK else 300
    G1 = ng.Gen(r, "int"); G2 = ng.Gen(r, "tab", functions=True)
    T = ng.TYPES + ["SV"]
    progs = gen_programs(r, n, lambda: interior(r, G1.prog(r.choice(T), r.choice([0,1,2,3]), alias=0.35)))
    progs += gen_programs(r, n, lambda: interior(r, G2.prog(r.choice(T), r.choice([1,2,3]), alias=0.35)))
    # every way to fill a field from a bare operand
    for t in ("SVol","XVol","YSurfZ","SV"):
        for k in ("D","F","V"):
            for ug in (True, False):
                p = ng.Prog(t, "int")
                if t == "SV":
                    if k == "F" or not ug: continue
                    p.lv = True; p.nv = 1
                else: p.ft.append(t)
                p.ug = ug
                p.ast = p.const() if k == "D" else p.field(t) if k == "F" else p.sv()
                progs.append(p)
    run(c, "p", progs, 6 if QUICK else 12)

def p13(c):
    c.model_check("MCNebo", "MCNebo.cfg" if QUICK else "MCNeboT.cfg", timeout=800)
    r = c.rng; n = 130 if QUICK else 700
    G = ng.Gen(r, "int", stencils=True); GC = ng.Gen(r, "int", stencils=True, conds=True)
    def mk():
        p = interior(r, (G if r.random() < 0.75 else GC).prog(r.choice(ng.TYPES), r.choice([1,2,2,3,3])))
        return p if any(q["k"] in ("st","stc","ms") for q in ng.nodes(p.ast)) else None
    progs = gen_programs(r, n, mk)
    run(c, "s", progs, 6 if QUICK else 10)
    # release build: footprints larger than the available ghosts leave a smaller box
    progs2 = progs[:40] if QUICK else progs[:250]
    exe = build_programs(c, "n", progs2, flags=["-DNDEBUG"])
    cases = make_cases(r, progs2, 6, tag="n", neg=True)
    files = c.run_cases(exe, cases, "n"); c.validate("TraceNebo", files, cases, exe)

def p15(c):
    r = c.rng; progs = []
    for (o, s, d) in ng.TRIPLES:
        p = ng.Prog(d, "int"); p.ft = [d]; a = p.field(s); p.ast = {"k":"st","op":o,"s":s,"d":d,"a":a}; p.apply = True
        progs.append(p)
    for (o, s, d) in ng.TRIPLES:
        p = ng.Prog(d, "int"); p.ft = [d]; a = p.field(s); b = p.field(s)
        p.ast = {"k":"st","op":o,"s":s,"d":d,"a":{"k":"n","o":r.choice("+-"),"a":a,"b":b}}
        progs.append(p)
    exe = build_programs(c, "o", progs, opdb=True)
    cases = make_cases(r, progs, 5 if QUICK else 40, tag="o")
    # degenerate and larger grids, every direction
    for i, p in enumerate(progs[:len(ng.TRIPLES)]):
        for dims in ([(5,1,4),(3,4,1),(1,3,3)] if QUICK else [(5,1,4),(3,4,1),(1,3,3),(9,5,4),(4,6,8),(7,1,1),(1,7,1),(1,1,7),(6,5,7)]):
            L = ng.make_case(r, p, i, dims=dims)
            if L: cases["d%d_%s" % (i, "x".join(map(str, dims)))] = L
    cases["opdb"] = ["opdb"]
    for n in ((2,3,4),(7,1,1)): cases["opdb%d" % n[0]] = ["n %d %d %d" % n, "sp8 8 4 16", "opdb"]
    files = c.run_cases(exe, cases, "o"); c.validate("TraceNebo", files, cases, exe)
    c.extra["operators"] = len(ng.TRIPLES)

def p16(c):
    r = c.rng; n = 60 if QUICK else 350
    G1 = ng.Gen(r, "int", conds=True); G2 = ng.Gen(r, "tab", conds=True, functions=True); G3 = ng.Gen(r, "int", conds=True, stencils=True)
    def mk(G):
        t = r.choice(ng.TYPES)
        p = G.prog(t, 1)
        q = ng.Prog(t, G.mode); G.p = q; G.nst = 0; q.ft.append(t)
        q.ast = G.cond(t, r.choice([1,2,2,3]))
        return interior(r, q)
    progs = gen_programs(r, n, lambda: mk(G1)) + gen_programs(r, n//2, lambda: mk(G2)) + gen_programs(r, n//2, lambda: mk(G3))
    # every kind of clause (condition kind x result kind x default kind), and bare defaults
    t = "SVol"
    for bk, ek, dk in itertools.product("bBM", "DFE", "DFE"):
        for bk2 in ("", "B", "M", "b"):
            if "B" not in bk+bk2 and "M" not in bk+bk2: continue
            if bk2 and r.random() < (0.7 if QUICK else 0): continue
            p = ng.Prog(t, "int"); p.ft.append(t)
            def res(k): return p.const() if k == "D" else p.field(t) if k == "F" else {"k":"n","o":"+","a":p.field(t),"b":p.const()}
            def cnd(k): return p.bconst() if k == "b" else p.mask(t) if k == "M" else {"k":"cmp","o":r.choice(["<",">=","==","!=","<=",">"]),"a":p.field(t),"b":p.const()}
            cl = [{"b":cnd(bk),"e":res(ek)}]
            if bk2: cl.append({"b":cnd(bk2),"e":res(r.choice("DFE"))})
            cl.append({"b":{"k":"else"},"e":res(dk)}); p.ast = {"k":"cond","c":cl}
            progs.append(p)
    # boolean connectives over every kind
    for a, b, o in itertools.product("BMb", "BMb", ("and","or")):
        if a == b == "b": continue
        p = ng.Prog(t, "int"); p.ft.append(t)
        def cnd(k): return p.bconst() if k == "b" else p.mask(t) if k == "M" else {"k":"cmp","o":r.choice(["<",">","=="]),"a":p.field(t),"b":p.field(t)}
        x = {"k":o,"a":cnd(a),"b":cnd(b)}
        if r.random() < 0.5: x = {"k":"not","a":x}
        p.ast = {"k":"cond","c":[{"b":x,"e":p.field(t)},{"b":{"k":"else"},"e":{"k":"f","i":0}}]}
        progs.append(p)
    run(c, "c", progs, 5 if QUICK else 10)

def p17(c):
    r = c.rng; n = 70 if QUICK else 400
    G1 = ng.Gen(r, "int"); G2 = ng.Gen(r, "int", stencils=True, conds=True)
    KINDS = ["sum","max","min","norm","red","redp","fold","foldi"]
    progs = []
    for rk in KINDS:
        for inter in (False, True):
            for t in ("SVol", r.choice(ng.TYPES)):
                p = ng.Prog(t, "int"); p.ft.append(t); p.ast = {"k":"f","i":0}; p.kind, p.rk, p.interior = "reduce", rk, inter; progs.append(p)
    def mk():
        p = (G1 if r.random() < 0.5 else G2).prog(r.choice(ng.TYPES), r.choice([1,2,2,3]))
        if p.ast["k"] in ("s","v"): return None
        p.kind, p.rk, p.interior = "reduce", r.choice(KINDS), r.random() < 0.35
        return p
    progs += gen_programs(r, n, mk)
    # the very sequence of values a fold is given, for values and functions which are not whole numbers
    G3 = ng.Gen(r, "tab", functions=True, conds=True)
    def mk3():
        p = G3.prog(r.choice(ng.TYPES), r.choice([1,2,2,3]))
        if p.ast["k"] in ("s","v"): return None
        p.kind, p.rk, p.interior = "reduce", "seq", r.random() < 0.35
        return p
    progs += gen_programs(r, n//3, mk3)
    run(c, "r", progs, 6 if QUICK else 12)

def p32(c):
    r = c.rng; t = "SVol"; progs = []
    def leaf(p, k):
        if k == "D": return p.const()
        if k == "F": return p.field(t)
        if k == "V": return p.sv()
        if k == "E": return {"k":"n","o":"*","a":p.field(t),"b":p.const()}
        return {"k":"n","o":"+","a":p.sv(),"b":p.const()}
    un = list(ng.UN)
    def prog(sv, f):
        p = ng.Prog("SV" if sv else t, "tab")
        if sv: p.lv = True; p.nv = 1
        else: p.ft.append(t)
        p.ast = f(p); return p
    for o in un:
        for k in "FEVW":
            progs.append(prog(False, lambda p: {"k":"u","o":o,"a":leaf(p, k)}))
            if k in "VW": progs.append(prog(True, lambda p: {"k":"u","o":o,"a":leaf(p, k)}))
    for o in ("+","-","*","/","pow","min","max"):
        for a, b in itertools.product("DFEVW", repeat=2):
            if a == b == "D": continue
            if o in ("min","max") and False: continue
            sv = a in "DVW" and b in "DVW"
            progs.append(prog(sv and r.random() < 0.5, lambda p: {"k":"n","o":o,"a":leaf(p, a),"b":leaf(p, b)}))
    for o in ("<","<=",">",">=","==","!="):
        for a, b in itertools.product("DFEVW", repeat=2):
            if a not in "FE" and b not in "FE": continue
            progs.append(prog(False, lambda p: {"k":"cond","c":[{"b":{"k":"cmp","o":o,"a":leaf(p, a),"b":leaf(p, b)},"e":p.const()},{"b":{"k":"else"},"e":p.field(t)}]}))
    # inside reductions
    for o in un:
        for k in "FE":
            p = prog(False, lambda p: {"k":"u","o":o,"a":leaf(p, k)}); p.kind, p.rk, p.interior = "reduce", "seq", False; progs.append(p)
    for o in ("+","-","*","/","pow","min","max"):
        for a, b in ("FF", "FE", "EF", "FD", "DF", "FV", "VE"):
            p = prog(False, lambda p: {"k":"n","o":o,"a":leaf(p, a),"b":leaf(p, b)}); p.kind, p.rk, p.interior = "reduce", "seq", r.random() < .3; progs.append(p)
    G = ng.Gen(r, "tab", functions=True)
    progs += gen_programs(r, 20 if QUICK else 300, lambda: G.prog(r.choice(ng.TYPES), r.choice([2,3,3])))
    run(c, "f", progs, 2 if QUICK else 8)

CHECKS = {"P12": p12, "P13": p13, "P15": p15, "P16": p16, "P17": p17, "P32": p32}
