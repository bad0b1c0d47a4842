"""Random and systematic Nebo statements: C++ programs, their abstract syntax for the specification, and cases.

The generator only decides what to run; what must come out is decided by spec/Nebo.tla.  The region computed here
only keeps generated cases inside the preconditions (a non-empty box)."""
import json, itertools

INF = 9001
OFF = {"SVol":(0,0,0),"SSurfX":(-1,0,0),"SSurfY":(0,-1,0),"SSurfZ":(0,0,-1),"XVol":(-1,0,0),"XSurfX":(0,0,0),"XSurfY":(-1,-1,0),"XSurfZ":(-1,0,-1),
       "YVol":(0,-1,0),"YSurfX":(-1,-1,0),"YSurfY":(0,0,0),"YSurfZ":(0,-1,-1),"ZVol":(0,0,-1),"ZSurfX":(-1,0,-1),"ZSurfY":(0,-1,-1),"ZSurfZ":(0,0,0)}
BCX = {"SVol":(0,0,0),"SSurfX":(1,0,0),"SSurfY":(0,1,0),"SSurfZ":(0,0,1),"XVol":(1,0,0),"XSurfX":(0,0,0),"XSurfY":(0,1,0),"XSurfZ":(0,0,1),
       "YVol":(0,1,0),"YSurfX":(1,0,0),"YSurfY":(0,0,0),"YSurfZ":(0,0,1),"ZVol":(0,0,1),"ZSurfX":(1,0,0),"ZSurfY":(0,1,0),"ZSurfZ":(0,0,0)}
TYPES = list(OFF)
VOLS = ["SVol","XVol","YVol","ZVol"]
FACE = {v: [v[0]+"Surf"+d for d in "XYZ"] for v in VOLS}

def op_triples():
    t = set()
    for v in VOLS:
        for f in FACE[v]: t |= {("Interpolant",v,f),("Gradient",v,f),("Interpolant",f,v),("Divergence",f,v)}
        for o in ("Filter","InterpolantX","InterpolantY","InterpolantZ","GradientX","GradientY","GradientZ"): t.add((o,v,v))
        t.add(("Interpolant",v,v))
    two = [("XVol","YSurfX"),("XVol","ZSurfX"),("YVol","XSurfY"),("YVol","ZSurfY"),("ZVol","XSurfZ"),("ZVol","YSurfZ"),
           ("SVol","XVol"),("SVol","YVol"),("SVol","ZVol"),("XVol","SVol"),("YVol","SVol"),("ZVol","SVol")]
    for s, d in two: t |= {("Interpolant",s,d),("Gradient",s,d)}
    for s, d in [("XVol","SSurfX"),("YVol","SSurfY"),("ZVol","SSurfZ"),("SVol","XSurfX"),("SVol","YSurfY"),("SVol","ZSurfZ"),
                 ("XSurfX","SVol"),("YSurfY","SVol"),("ZSurfZ","SVol"),
                 ("SVol","XSurfY"),("SVol","XSurfZ"),("SVol","YSurfX"),("SVol","YSurfZ"),("SVol","ZSurfX"),("SVol","ZSurfY"),
                 ("XSurfY","SVol"),("XSurfZ","SVol"),("YSurfX","SVol"),("YSurfZ","SVol"),("ZSurfX","SVol"),("ZSurfY","SVol"),
                 ("XVol","YVol"),("XVol","ZVol"),("YVol","XVol"),("YVol","ZVol"),("ZVol","XVol"),("ZVol","YVol")]:
        t.add(("Interpolant",s,d))
    return sorted(t)
TRIPLES = op_triples()
def is_grad(op): return op in ("Gradient","Divergence","GradientX","GradientY","GradientZ")
def op_points(op, s, d):
    if op == "Filter": return [p for p in itertools.product((-1,0,1), repeat=3)]
    if op[-1] in "XYZ":
        e = "XYZ".index(op[-1]); return [tuple(a if q == e else 0 for q in range(3)) for a in (-1, 1)]
    df = [q for q in range(3) if OFF[s][q] != OFF[d][q]]
    ch = [(((OFF[d][q]-OFF[s][q]-1)//2, (OFF[d][q]-OFF[s][q]+1)//2) if q in df else (0,)) for q in range(3)]
    return [p for p in itertools.product(*ch)]
def grad_dir(op, s, d):
    if op[-1] in "XYZ": return "XYZ".index(op[-1])
    return [q for q in range(3) if OFF[s][q] != OFF[d][q]][0]

# ---------------------------------------------------------------- programs

class Prog:
    def __init__(self, T, mode):
        self.T, self.mode = T, mode          # destination type ("SV" for a single-value destination)
        self.ft, self.nv, self.mt, self.nk, self.nkb = [], 0, [], 0, 0
        self.stc = []                        # user-defined stencils (source, destination, points)
        self.lhs, self.lv, self.ug = 0, False, True
        self.ast, self.kind, self.rk, self.interior = None, "assign", "", False
        self.bck = 1
    def field(self, t): self.ft.append(t); return {"k":"f","i":len(self.ft)-1}
    def sv(self): self.nv += 1; return {"k":"v","i":self.nv-1}
    def const(self): self.nk += 1; return {"k":"s","i":self.nk-1}
    def bconst(self): self.nkb += 1; return {"k":"bs","i":self.nkb-1}
    def mask(self, t): self.mt.append(t); return {"k":"m","i":len(self.mt)-1}
    def ftype(self, n): return self.ft[n["i"]]

def nodes(n):
    yield n
    for k in ("a","b"):
        if isinstance(n.get(k), dict): yield from nodes(n[k])
    for c in n.get("c", []):
        if c["b"]["k"] != "else": yield from nodes(c["b"])
        yield from nodes(c["e"])

def den(n):
    """product of divisors along the worst path"""
    k = n["k"]
    if k in ("u","not"): return den(n["a"])
    if k == "n":
        a, b = den(n["a"]), den(n["b"]); return lcm(a, b)
    if k == "st": return den(n["a"]) * (27 if n["op"] == "Filter" else 4 if is_grad(n["op"]) else len(op_points(n["op"],n["s"],n["d"])))
    if k == "stc": return den(n["a"]) * n["q"]
    if k in ("cmp","and","or"): return lcm(den(n["a"]), den(n["b"]))
    if k == "cond":
        r = 1
        for c in n["c"]:
            r = lcm(r, den(c["e"]))
            if c["b"]["k"] != "else": r = lcm(r, den(c["b"]))
        return r
    return 1
def lcm(a, b):
    import math
    return a*b//math.gcd(a, b)

def bound(n, X, worst):
    """bound of |value| with leaves bounded by X; worst collects the largest intermediate"""
    k = n["k"]
    if k in ("s","f","v"): r = X
    elif k == "u": r = bound(n["a"], X, worst)
    elif k == "n":
        a, b = bound(n["a"], X, worst), bound(n["b"], X, worst)
        r = a*b if n["o"] == "*" else a+b
    elif k == "st":
        a = bound(n["a"], X, worst); r = a*27 if n["op"] == "Filter" else a*2*8*4 if is_grad(n["op"]) else a*4
        worst.append(r); r = a if not is_grad(n["op"]) else a*16
    elif k == "stc":
        a = bound(n["a"], X, worst); r = a*sum(abs(w) for w in n["w"])
    elif k in ("cmp","and","or"): r = max(bound(n["a"], X, worst), bound(n["b"], X, worst))
    elif k == "not": r = bound(n["a"], X, worst)
    elif k == "cond":
        r = 0
        for c in n["c"]:
            r = max(r, bound(c["e"], X, worst))
            if c["b"]["k"] != "else": bound(c["b"], X, worst)
    else: r = 1
    worst.append(r); return r

# ---- region (generation only)
def gmin(a, b): return tuple(map(min, a, b))
def shrink(g, p):
    if min(g) >= INF: return g
    return tuple(g[i] - max(0, -p[i]) for i in range(3)) + tuple(g[3+i] - max(0, p[i]) for i in range(3))
class Neg(Exception): pass
def pg(n, case):
    g = pg0(n, case)
    if min(g) < 0 and not case.get("neg"): raise Neg()      # ghost counts are asserted to be non-negative in debug builds
    return g
def pg0(n, case):
    k = n["k"]; inf = (INF,)*6
    if k in ("s","v","bs"): return inf
    if k == "f": f = case["f"][n["i"]]; return tuple(f["vm"]) + tuple(f["vp"][i]+f["x"][i] for i in range(3))
    if k == "m": f = case["m"][n["i"]]; return tuple(f["gm"]) + tuple(f["gp"][i]+f["x"][i] for i in range(3))
    if k == "ms":
        f = case["m"][n["i"]]; g = tuple(f["gm"]) + tuple(f["gp"][i]+f["x"][i] for i in range(3))
        d = [q for q in range(3) if OFF[n["s"]][q] != OFF[n["d"]][q]][0]; df = OFF[n["d"]][d]-OFF[n["s"]][d]
        v = (df+1)//2 if n["side"] == "minus" else (df-1)//2
        return shrink(g, tuple(v if q == d else 0 for q in range(3)))
    if k in ("u","not"): return pg(n["a"], case)
    if k in ("n","cmp","and","or"): return gmin(pg(n["a"], case), pg(n["b"], case))
    if k in ("st","stc"):
        g = pg(n["a"], case); r = inf
        for p in (op_points(n["op"],n["s"],n["d"]) if k == "st" else n["p"]): r = gmin(r, shrink(g, p))
        return r
    if k == "cond":
        r = inf
        for c in n["c"]:
            if c["b"]["k"] != "else": r = gmin(r, pg(c["b"], case))
            r = gmin(r, pg(c["e"], case))
        return r
    raise ValueError(k)

# ---- C++ text
UN = {"neg":"-(%s)","abs":"abs(%s)","sin":"sin(%s)","cos":"cos(%s)","tan":"tan(%s)","exp":"exp(%s)","tanh":"tanh(%s)","sqrt":"sqrt(%s)","log":"log(%s)","log10":"log10(%s)","erf":"erf(%s)","erfc":"erfc(%s)"}
def cpp(n):
    k = n["k"]
    if k == "s": return "k%d" % n["i"]
    if k in ("f","v","m"): return "%s%d" % (k, n["i"])
    if k == "bs": return "kb%d" % n["i"]
    if k == "u": return UN[n["o"]] % cpp(n["a"])
    if k == "n": return ("%s(%s, %s)" % (n["o"], cpp(n["a"]), cpp(n["b"]))) if n["o"] in ("pow","min","max") else "(%s %s %s)" % (cpp(n["a"]), n["o"], cpp(n["b"]))
    if k == "cmp": return "(%s %s %s)" % (cpp(n["a"]), n["o"], cpp(n["b"]))
    if k == "and": return "(%s && %s)" % (cpp(n["a"]), cpp(n["b"]))
    if k == "or": return "(%s || %s)" % (cpp(n["a"]), cpp(n["b"]))
    if k == "not": return "(!%s)" % cpp(n["a"])
    if k == "st": return "c.op<%s,%s,%s>()(%s)" % (n["op"], n["s"], n["d"], cpp(n["a"]))
    if k == "stc": return "st%d(%s)" % (n["id"], cpp(n["a"]))
    if k == "ms": return "NeboMaskShiftBuilder<SpatialField<%s>,SpatialField<%s> >().%s(m%d)" % (n["s"], n["d"], n["side"], n["i"])
    if k == "cond": return "cond" + "".join("(%s)" % cpp(c["e"]) if c["b"]["k"] == "else" else "(%s, %s)" % (cpp(c["b"]), cpp(c["e"])) for c in n["c"])
    raise ValueError(k)
def tabcpp(n):
    """plain double evaluation through the tabulating helpers; every operand is evaluated"""
    k = n["k"]
    if k == "s": return "c.k[%d]" % n["i"]
    if k == "f": return "c.VF(%d,q)" % n["i"]
    if k == "v": return "c.VV(%d)" % n["i"]
    if k == "bs": return "bool(c.kb[%d])" % n["i"]
    if k == "m": return "c.VM(%d,q)" % n["i"]
    if k == "u": return 'c.U("%s",%s)' % (n["o"], tabcpp(n["a"]))
    if k == "n": return 'c.N("%s",%s,%s)' % (n["o"], tabcpp(n["a"]), tabcpp(n["b"]))
    if k == "cmp": return 'c.C("%s",%s,%s)' % (n["o"], tabcpp(n["a"]), tabcpp(n["b"]))
    if k == "and": return "(%s & %s)" % (tabcpp(n["a"]), tabcpp(n["b"]))
    if k == "or": return "(%s | %s)" % (tabcpp(n["a"]), tabcpp(n["b"]))
    if k == "not": return "(!%s)" % tabcpp(n["a"])
    if k == "cond":
        s = tabcpp(n["c"][-1]["e"])
        for c in reversed(n["c"][:-1]): s = "c.sel(%s,%s,%s)" % (tabcpp(c["b"]), tabcpp(c["e"]), s)
        return s
    raise ValueError(k)

def program_cpp(i, p):
    o = ["static void p%d(Ctx& c){" % i]
    js = json.dumps(p.ast, separators=(",", ":"))
    o.append('  c.ast=R"J(%s)J";' % js)
    for j, t in enumerate(p.ft): o.append("  SpatialField<%s>& f%d=c.mk<%s>(%d);" % (t, j, t, j))
    for j in range(p.nv): o.append("  SingleValueField& v%d=c.mkv(%d);" % (j, j))
    for j, t in enumerate(p.mt): o.append("  SpatialMask<SpatialField<%s> >& m%d=c.mkm<%s>(%d);" % (t, j, t, j))
    for j in range(p.nk): o.append("  const double k%d=c.k.at(%d);" % (j, j))
    for j in range(p.nkb): o.append("  const bool kb%d=c.kb.at(%d);" % (j, j))
    for j, (s, d, pts, w, q) in enumerate(p.stc):
        coll = "NEBO_FIRST_IJK(%d,%d,%d)" % tuple(pts[0]) + "".join("::NEBO_ADD_IJK(%d,%d,%d)" % tuple(x) for x in pts[1:])
        if w is None: o.append("  const NeboSumStencilBuilder< %s, SpatialField<%s>, SpatialField<%s> > st%d;" % (coll, s, d, j))
        else:
            cf = "build_coef_collection(%s)" % (w[0]/q) + "".join("(%s)" % (x/q) for x in w[1:])
            o.append("  const NeboStencilBuilder< Interpolant, %s, SpatialField<%s>, SpatialField<%s> > st%d(%s);" % (coll, s, d, j, cf))
    if p.mode == "tab": o.append("  c.begin(); c.tabulate([&](const IntVec& q){ (void)(%s); });" % tabcpp(p.ast))
    ex = cpp(p.ast)
    if p.kind == "assign":
        l = ("v%d" if p.lv else "f%d") % p.lhs
        o.append("  c.lhs=%d; c.lhsv=%s; c.useGhost=%s; c.begin(); bool t=false;" % (p.lhs, str(p.lv).lower(), str(p.ug).lower()))
        st = ("c.op<%s,%s,%s>().apply_to_field(%s,%s);" % (p.ast["op"],p.ast["s"],p.ast["d"],cpp(p.ast["a"]),l)) if getattr(p,"apply",False) else "%s <<= %s;" % (l, ex) if p.ug else "interior_assign(%s, %s);" % (l, ex)
        o.append("  try{ %s }catch(std::runtime_error&){ t=true; }" % st)
        o.append("  c.end(t);")
    else:
        sfx = "_interior" if p.interior else ""
        call = {"sum":"nebo_sum%s(%s)","max":"nebo_max%s(%s)","min":"nebo_min%s(%s)","norm":"nebo_norm%s(%s)","red":"nebo_reduce%s(vh_red, %s)",
                "fold":"nebo_fold%s(vh_fold, 7.0, %s)","foldi":"nebo_fold%s(vh_foldi, 5, %s)","redp":"nebo_reduce%s(vh_fold, %s)","seq":"nebo_fold%s(vh_seq, 0, %s)"}[p.rk] % (sfx, ex)
        rk = "red" if p.rk == "redp" else p.rk
        o.append("  c.begin(); vh_folded().clear(); bool t=false; double r=0;")
        o.append("  try{ r=%s; }catch(std::runtime_error&){ t=true; }" % call)
        o.append('  c.reduced("%s",%s,%s,t,%d);' % (rk, str(p.interior).lower(), "r*r" if rk == "norm" else "r", 0))
    o.append("}\nstatic Reg r%d(%d,p%d);" % (i, i, i))
    return "\n".join(o)

def opdb_cpp():
    o = ["void vh_opdb(Ctx& c){ std::ostringstream o; o<<\"[\"; bool first=true; int n=0;"]
    for (a, s, d) in TRIPLES:
        o.append('  try{ if(&c.op<%s,%s,%s>()){ o<<(first?"":",")<<"[\\"%s\\",\\"%s\\",\\"%s\\"]"; first=false; ++n; } }catch(std::exception&){}' % (a, s, d, a, s, d))
    o.append('  o<<"]"; vh::Ev("OpDB").raw("ops",o.str()).i("n",n).emit(); }')
    return '#define VH_NO_MAIN\n#include "nebo_rt.h"\n' + "\n".join(o) + "\n"
def tu(progs):
    return '#define VH_NO_MAIN\n#include "nebo_rt.h"\n' + "\n".join(program_cpp(i, p) for i, p in progs) + "\n"

# ---------------------------------------------------------------- random expressions

class Gen:
    def __init__(self, rng, mode, stencils=False, conds=False, functions=False, svs=True):
        self.r, self.mode, self.st, self.cd, self.fn, self.svs = rng, mode, stencils, conds, functions, svs
        self.ops = [o for o in TRIPLES if o[0] != "Filter"]
        self.bydst = {}
        for o in TRIPLES: self.bydst.setdefault(o[2], []).append(o)
    def prog(self, T, depth, alias=0.3):
        p = Prog(T, self.mode); self.p = p; self.cur = T; self.instencil = 0; self.alias = alias; self.nofilter = 0; self.nst = 0
        if T == "SV": p.lv = True; p.nv = 1; n, k = self.svexpr(depth)
        else: p.ft.append(T); n, k = self.num(T, depth)
        p.ast = n
        return p
    def fleaf(self, T):
        p = self.p
        if p.T == T and not p.lv and not self.instencil and self.r.random() < self.alias: return {"k":"f","i":0}
        ex = [i for i in range(1, len(p.ft)) if p.ft[i] == T]
        if ex and (self.r.random() < 0.4 or len(p.ft) > 4): return {"k":"f","i":self.r.choice(ex)}
        return p.field(T)
    def vleaf(self):
        p = self.p
        if p.nv and self.r.random() < 0.5: return {"k":"v","i":self.r.randrange(p.nv)}
        return p.sv()
    def leaf(self, T, kinds):
        k = self.r.choice(kinds)
        if k == "F": return self.fleaf(T), "F"
        if k == "V": return self.vleaf(), "V"
        return self.p.const(), "D"
    def binop(self):
        return self.r.choice(["+","-","*"] + (["/","pow"] if self.mode == "tab" and self.fn else []) + ["+","-"])
    def unop(self):
        return self.r.choice(["neg","abs"] + (["sin","cos","tan","exp","tanh","sqrt","log","log10","erf","erfc"] if self.mode == "tab" and self.fn else []))
    def svexpr(self, depth):
        if depth <= 0:
            return (self.vleaf(), "V") if self.r.random() < 0.7 else (self.p.const(), "D")
        if self.r.random() < 0.25:
            a, k = self.svexpr(depth-1)
            return ({"k":"u","o":self.unop(),"a":a}, "W") if k != "D" else (a, k)
        a, ka = self.svexpr(depth-1); b, kb = self.svexpr(depth-1)
        if ka == "D" and kb == "D": a, ka = self.vleaf(), "V"
        return {"k":"n","o":self.binop(),"a":a,"b":b}, "W"
    def num(self, T, depth, field=False):
        """(node, kind) with kind in D F E V W; field: F or E wanted"""
        r = self.r
        if depth <= 0:
            return self.leaf(T, ["F"] if field else ["F","F","F","D"] + (["V"] if self.svs else []))
        x = r.random()
        if self.st and x < 0.45 and self.nst < 3:
            n = self.stencil(T, depth)
            if n: return n, "E"
        if self.cd and x < 0.30:
            return self.cond(T, depth), "E"
        if x < 0.18 + (0.1 if self.fn else 0):
            a, k = self.num(T, depth-1, True)
            return {"k":"u","o":self.unop(),"a":a}, "E"
        if x < 0.26 and (self.mode == "int" or True):
            if self.mode == "tab":
                a, ka = self.leaf(T, ["F"]); b, kb = self.leaf(T, ["F","D"] + (["V"] if self.svs else []))
            else:
                self.nofilter += 0
                a, ka = self.num(T, depth-1, True); b, kb = self.num(T, depth-1)
            if r.random() < 0.5: a, b = b, a
            return {"k":"n","o":r.choice(["min","max"]),"a":a,"b":b}, "E"
        a, ka = self.num(T, depth-1, field); b, kb = self.num(T, depth-1)
        if ka not in "FE" and kb not in "FE":
            a, ka = self.num(T, 0, True)
        if r.random() < 0.5: a, b = b, a
        return {"k":"n","o":self.binop(),"a":a,"b":b}, "E"
    def stencil(self, T, depth):
        r = self.r; self.nst += 1
        if r.random() < 0.3:
            # user-defined stencil with asymmetric points
            S = r.choice([T, T] + [o[1] for o in self.bydst.get(T, [(0,T,T)])])
            np_ = r.randint(1, 3)
            pts = r.sample(list(itertools.product((-1,0,1), (-1,0,1), (-1,0,1) if r.random() < 0.4 else (0,))), np_)
            if r.random() < 0.2: pts[0] = tuple(2*x for x in pts[0])
            if r.random() < 0.35: w, q = None, 1
            else: w, q = [r.choice([-2,-1,1,2,3]) for _ in range(np_)], r.choice([1,2,4])
            self.instencil += 1; a, _ = self.num(S, depth-1, True); self.instencil -= 1
            i = len(self.p.stc); self.p.stc.append((S, T, pts, w, q))
            return {"k":"stc","id":i,"s":S,"d":T,"p":[list(x) for x in pts],"w":w or [1]*np_,"q":q,"a":a}
        c = [o for o in self.bydst.get(T, []) if o[0] != "Filter" or (not self.nofilter and r.random() < 0.3)]
        if not c: return None
        op = r.choice(c)
        self.instencil += 1; a, _ = self.num(op[1], depth-1, True); self.instencil -= 1
        return {"k":"st","op":op[0],"s":op[1],"d":op[2],"a":a}
    def boolean(self, T, depth, kinds="BM"):
        r = self.r
        if depth <= 0 or r.random() < 0.4:
            x = r.random()
            if x < 0.3 and "M" in kinds:
                if self.p.mt and r.random() < 0.4:
                    c = [i for i, t in enumerate(self.p.mt) if t == T]
                    if c: return {"k":"m","i":r.choice(c)}, "M"
                return self.p.mask(T), "M"
            if x < 0.42 and self.mode == "int" and self.st:
                c = [o for o in TRIPLES if o[2] == T and sum(a != b for a, b in zip(OFF[o[1]], OFF[T])) == 1 and o[0] == "Interpolant"]
                if c:
                    S = r.choice(c)[1]; m = self.p.mask(S)
                    return {"k":"ms","i":m["i"],"s":S,"d":T,"side":r.choice(["minus","plus"])}, "B"
            self.nofilter += 1
            a, ka = self.num(T, min(depth, 1), True); b, kb = self.num(T, 0)
            self.nofilter -= 1
            if r.random() < 0.5: a, b = b, a
            return {"k":"cmp","o":r.choice(["<","<=",">",">=","==","!="]),"a":a,"b":b}, "B"
        x = r.random()
        if x < 0.2:
            a, _ = self.boolean(T, depth-1); return {"k":"not","a":a}, "B"
        a, ka = self.boolean(T, depth-1)
        if r.random() < 0.15: b = self.p.bconst()
        else: b, _ = self.boolean(T, depth-1)
        if r.random() < 0.5: a, b = b, a
        return {"k":r.choice(["and","or"]),"a":a,"b":b}, "B"
    def result(self, T, depth):
        r = self.r; x = r.random()
        if x < 0.25: return self.p.const(), "D"
        n, k = self.num(T, depth-1 if x > 0.5 else 0, True)
        return n, k
    def cond(self, T, depth):
        r = self.r; cl = []; any_f = False
        for _ in range(r.choice([1,1,2,2,3])):
            if r.random() < 0.12: b, kb = self.p.bconst(), "b"
            else: b, kb = self.boolean(T, depth-1); any_f = True
            e, k = self.result(T, depth)
            cl.append({"b":b,"e":e})
        e, k = self.result(T, depth)
        if not any_f:
            cl[0]["b"] = self.p.mask(T)
        cl.append({"b":{"k":"else"},"e":e})
        return {"k":"cond","c":cl}

def ok_int(p, X):
    w = []; bound(p.ast, X, w)
    return max(w) < 2**30

# ---------------------------------------------------------------- cases

def make_case(rng, p, prog_id, big=False, nmax=4, throws=False, interior_cover=True, parts=None, dims=None, tries=80, neg=False):
    """one case (list of script lines) for program p, or None"""
    r = rng
    for _ in range(tries):
        if dims: n = list(dims)
        else:
            n = [r.choice([1,2,2,3,3,nmax]) for _ in range(3)]
            if r.random() < 0.5: n[r.randrange(3)] = 1
            if n == [1,1,1] and r.random() < 0.8: continue
        deg = [x == 1 for x in n]
        bc = [0 if deg[d] else int(r.random() < 0.4) for d in range(3)]
        need = sum(1 for q in nodes(p.ast) if q["k"] in ("st","stc","ms"))
        gmax = 1 if (not need and r.random() < 0.5) else 2
        def gh(): return [0 if deg[d] else r.choice([0,1,gmax,gmax]) for d in range(3)]
        case = {"f":[], "m":[]}
        mixed = not dims and r.random() < (0.6 if throws else 0.25)     # operands with boundaries of their own
        for t in p.ft:
            gm, gp = gh(), gh()
            vm = [r.choice([x, x, r.randint(0, x)]) for x in gm]; vp = [r.choice([x, x, r.randint(0, x)]) for x in gp]
            if r.random() < 0.4: vm, vp = list(gm), list(gp)
            pad = r.random() < 0.25
            fb = [0 if deg[d] else r.choice([bc[d], 0, 1]) for d in range(3)] if mixed else bc
            case["f"].append({"t":t,"gm":gm,"gp":gp,"vm":vm,"vp":vp,"bc":fb,"x":[BCX[t][d]*fb[d] for d in range(3)],
                              "lo":[r.choice([0,1]) for _ in range(3)] if pad else [0,0,0], "hi":[r.choice([0,1,2]) for _ in range(3)] if pad else [0,0,0]})
        for t in p.mt:
            gm, gp = gh(), gh(); x = [BCX[t][d]*bc[d] for d in range(3)]
            cells = list(itertools.product(*[range(-gm[d], n[d]+gp[d]+x[d]) for d in range(3)]))
            dens = r.choice([0.15, 0.5, 0.5, 0.85])
            pts = [c for c in cells if r.random() < dens]; r.shuffle(pts)
            case["m"].append({"t":t,"gm":gm,"gp":gp,"x":x,"pts":pts})
        case["neg"] = neg
        try: g = pg(p.ast, case)
        except Neg: continue
        if p.kind == "assign":
            if p.lv: reg = None
            else:
                L = case["f"][p.lhs]; x = L["x"]
                thr = any(L["bc"][d] and g[3+d] < x[d] for d in range(3))
                if thr != throws:
                    if throws or thr: continue
                if not p.ug and not thr and any(g[d] < 0 or g[3+d] < x[d] for d in range(3)): continue
                tot = tuple(L["gm"]) + tuple(L["gp"][d]+x[d] for d in range(3))
                reg = gmin(g, tot) if p.ug else (0,0,0)+tuple(x)
                if not thr and any(n[d]+reg[d]+reg[3+d] <= 0 for d in range(3)): continue
                if not thr and not neg and any(reg[3+d] < x[d] for d in range(3)): continue
        else:
            if min(g) >= INF: return None
            if p.interior:
                if any(g[q] < 0 for q in range(6)): continue
            elif any(n[d]+g[d]+g[3+d] <= 0 for d in range(3)): continue
        M = den(p.ast) if p.mode == "int" else 1
        rg = 3
        if p.mode == "int":
            while rg > 0 and not ok_int(p, rg*M): rg -= 1
            if rg == 0: return None
            if p.kind == "reduce":
                w = []; b = bound(p.ast, rg*M, w)
                if p.rk in ("sum",) and b*400 > 2**31: return None
                if p.rk == "norm" and b*b*400 > 2**31: return None
                if p.rk in ("red","redp","fold","foldi") and b > 3*10**7: return None
        sp = [r.choice([4,8,8,16,2]) for _ in range(3)]      # 8*spacing
        L = ["n %d %d %d" % tuple(n), "bc %d %d %d" % tuple(bc), "mode %s" % p.mode, "sp8 %d %d %d" % tuple(sp), "mul %d" % M]
        # the sign of a zero chosen by min/max is not specified: no zeros there
        pals = [q for q in PALETTES if 0.0 not in q] if any(q.get("o") in ("min","max") for q in nodes(p.ast)) else PALETTES
        if p.mode == "tab": L.append("pal " + " ".join(repr(v) for v in r.choice(pals)))
        if parts is not None: L.append("parts %d" % parts)
        for f in case["f"]:
            L.append("f %s %s %s %s %s %s %d %d" % (s3(f["gm"]), s3(f["gp"]), s3(f["vm"]), s3(f["vp"]), s3(f["lo"]), s3(f["hi"]), r.randrange(1, 10**6), rg) + (" " + s3(f["bc"]) if mixed else ""))
        for _v in range(p.nv): L.append("v 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 %d %d %d %d %d" % (r.choice([0,0,1]), 0, 0, r.randrange(1, 10**6), rg))
        for m in case["m"]: L.append("m %s %s %s" % (s3(m["gm"]), s3(m["gp"]), " ".join(s3(q) for q in m["pts"])))
        if p.nk:
            if p.mode == "tab": pal = r.choice(pals); L.append("k " + " ".join(repr(r.choice(pal)) for _ in range(p.nk)))
            else: L.append("k " + " ".join(str(r.randint(-rg, rg)*M) for _ in range(p.nk)))
        if p.nkb: L.append("kb " + " ".join(str(r.randint(0, 1)) for _ in range(p.nkb)))
        L.append("prog %d" % prog_id)
        return L
    return None
def s3(v): return "%d %d %d" % tuple(v)
PALETTES = [[0.5, -1.25, 2.0, 3.75, -0.1, 1e-3, 7.3],
            [0.3, 0.7, 1.1, 1.9, 2.6, 0.05],
            [1.0, -1.0, 0.0, 2.5, -3.5, 100.25],
            [-2.0, -0.75, 12.5, 0.125, 33.3, -1e-4]]
