-------------------------------- MODULE Nebo --------------------------------
(* Meaning of field expressions: the cells an assignment or reduction touches and the value at every cell.       *)
(* Cells are addressed by their coordinate relative to the first interior cell, so that equal coordinates of     *)
(* different fields denote corresponding cells.  Values are integers ("int" mode, exact) or identifiers of       *)
(* doubles with a table of the scalar functions applied to them ("tab" mode).                                    *)
EXTENDS Geometry, TLC

(* ---- stencil points ---------------------------------------------------------------------------------------- *)
Unit(d) == [e \in D |-> IF e = d THEN 1 ELSE 0]
Differ(s, t) == {d \in D : FieldType[s].off[d] # FieldType[t].off[d]}
\* displacement of the lower / upper neighbour in direction d when moving from cells of s to cells of t
\* (positions in half cells: a staggered type sits half a cell below)
LoPt(s, t, d) == (FieldType[t].off[d] - FieldType[s].off[d] - 1) \div 2
HiPt(s, t, d) == (FieldType[t].off[d] - FieldType[s].off[d] + 1) \div 2
At1(d, a)       == [e \in D |-> IF e = d THEN a ELSE 0]
At2(d, a, f, b) == [e \in D |-> IF e = d THEN a ELSE IF e = f THEN b ELSE 0]
DirOf(op) == CASE op \in {"InterpolantX", "GradientX"} -> 1 [] op \in {"InterpolantY", "GradientY"} -> 2 [] op \in {"InterpolantZ", "GradientZ"} -> 3 [] OTHER -> 0
Box27 == [n \in 1..27 |-> <<((n-1) % 3) - 1, (((n-1) \div 3) % 3) - 1, ((n-1) \div 9) - 1>>]
\* points of an operator, lowest first
OpPoints(op, s, t) ==
  IF op = "Filter" THEN Box27
  ELSE IF DirOf(op) # 0 THEN << At1(DirOf(op), -1), At1(DirOf(op), 1) >>
  ELSE LET df == Differ(s, t) IN
       CASE df = {} -> << Zero3 >>
         [] Cardinality(df) = 1 -> LET d == CHOOSE x \in df : TRUE IN << At1(d, LoPt(s,t,d)), At1(d, HiPt(s,t,d)) >>
         [] Cardinality(df) = 2 -> LET d == CHOOSE x \in df : \A y \in df : x <= y   f == CHOOSE x \in df : \A y \in df : x >= y IN
              << At2(d,LoPt(s,t,d),f,LoPt(s,t,f)), At2(d,HiPt(s,t,d),f,LoPt(s,t,f)), At2(d,LoPt(s,t,d),f,HiPt(s,t,f)), At2(d,HiPt(s,t,d),f,HiPt(s,t,f)) >>
\* direction a gradient or divergence differentiates along
GradDir(op, s, t) == IF DirOf(op) # 0 THEN DirOf(op) ELSE CHOOSE d \in Differ(s, t) : TRUE
IsGrad(op) == op \in {"Gradient", "Divergence", "GradientX", "GradientY", "GradientZ"}

VolTypes == {"SVol", "XVol", "YVol", "ZVol"}
\* the documented operators: [op, source, destination]
OpTriples ==
  { <<o, v, FaceOf[v][d]>> : o \in {"Interpolant", "Gradient"}, v \in VolTypes, d \in D } \cup
  { <<o, FaceOf[v][d], v>> : o \in {"Interpolant", "Divergence"}, v \in VolTypes, d \in D } \cup
  { <<o, q[1], q[2]>> : o \in {"Interpolant", "Gradient"}, q \in
     { <<"XVol","YSurfX">>, <<"XVol","ZSurfX">>, <<"YVol","XSurfY">>, <<"YVol","ZSurfY">>, <<"ZVol","XSurfZ">>, <<"ZVol","YSurfZ">>,
       <<"SVol","XVol">>, <<"SVol","YVol">>, <<"SVol","ZVol">>, <<"XVol","SVol">>, <<"YVol","SVol">>, <<"ZVol","SVol">> } } \cup
  { <<"Interpolant", v, v>> : v \in VolTypes } \cup
  { <<"Interpolant", q[1], q[2]>> : q \in
     { <<"XVol","SSurfX">>, <<"YVol","SSurfY">>, <<"ZVol","SSurfZ">>, <<"SVol","XSurfX">>, <<"SVol","YSurfY">>, <<"SVol","ZSurfZ">>,
       <<"XSurfX","SVol">>, <<"YSurfY","SVol">>, <<"ZSurfZ","SVol">>,
       <<"SVol","XSurfY">>, <<"SVol","XSurfZ">>, <<"SVol","YSurfX">>, <<"SVol","YSurfZ">>, <<"SVol","ZSurfX">>, <<"SVol","ZSurfY">>,
       <<"XSurfY","SVol">>, <<"XSurfZ","SVol">>, <<"YSurfX","SVol">>, <<"YSurfZ","SVol">>, <<"ZSurfX","SVol">>, <<"ZSurfY","SVol">>,
       <<"XVol","YVol">>, <<"XVol","ZVol">>, <<"YVol","XVol">>, <<"YVol","ZVol">>, <<"ZVol","XVol">>, <<"ZVol","YVol">> } } \cup
  { <<o, v, v>> : o \in {"Filter", "InterpolantX", "InterpolantY", "InterpolantZ", "GradientX", "GradientY", "GradientZ"}, v \in VolTypes }
PointTable == [q \in OpTriples |-> OpPoints(q[1], q[2], q[3])]

(* Weighted sum over the points: exact division (the data are chosen so that it is).                             *)
\* ev.sp8 = 8 * spacing
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE q[1] + SumQ(Tail(q))
RECURSIVE DotQ(_, _)
DotQ(a, q) == IF q = <<>> THEN 0 ELSE a[1]*q[1] + DotQ(Tail(a), Tail(q))
OpValue(ev, op, s, t, q) ==
  IF IsGrad(op) THEN ((IF DirOf(op) # 0 THEN 4 ELSE 8) * (q[2] - q[1])) \div ev.sp8[GradDir(op, s, t)]
  ELSE SumQ(q) \div Len(q)

(* ---- where an expression can be evaluated -------------------------------------------------------------------- *)
InfGhost == Ghost(<<GhostMax,GhostMax,GhostMax>>, <<GhostMax,GhostMax,GhostMax>>)
ValidPG(F) == Ghost(F.v.m, Add3(F.v.p, F.x))
TotalPG(F) == Ghost(F.g.m, Add3(F.g.p, F.x))
RECURSIVE GMinAll(_)
GMinAll(q) == IF q = <<>> THEN InfGhost ELSE GMin(q[1], GMinAll(Tail(q)))
Shrink(g, p) == IF InfG(g) THEN g ELSE GSub(g, Pt2G(p))
ShrinkAll(g, pts) == GMinAll([i \in 1..Len(pts) |-> Shrink(g, pts[i])])
PtsOf(n) == IF n.k = "st" THEN PointTable[<<n.op, n.s, n.d>>] ELSE n.p
MaskPt(n) == LET d == CHOOSE x \in Differ(n.s, n.d) : TRUE IN At1(d, IF n.side = "minus" THEN HiPt(n.s, n.d, d) ELSE LoPt(n.s, n.d, d))
RECURSIVE PG(_, _)
PG(ev, n) == CASE n.k \in {"s", "v", "bs"} -> InfGhost
               [] n.k = "f" -> ValidPG(ev.f[n.i+1])
               [] n.k = "m" -> ValidPG(ev.m[n.i+1])
               [] n.k = "ms" -> Shrink(ValidPG(ev.m[n.i+1]), MaskPt(n))
               [] n.k \in {"u", "not"} -> PG(ev, n.a)
               [] n.k \in {"n", "cmp", "and", "or"} -> GMin(PG(ev, n.a), PG(ev, n.b))
               [] n.k \in {"st", "stc"} -> ShrinkAll(PG(ev, n.a), PtsOf(n))
               [] n.k = "cond" -> GMinAll([i \in 1..Len(n.c) |-> GMin(IF n.c[i].b.k = "else" THEN InfGhost ELSE PG(ev, n.c[i].b), PG(ev, n.c[i].e))])

(* ---- values -------------------------------------------------------------------------------------------------- *)
FIdx(F, c) == Flat(F.w.g, <<F.w.o[1] + F.g.m[1] + c[1], F.w.o[2] + F.g.m[2] + c[2], F.w.o[3] + F.g.m[3] + c[3]>>)
Int1(o, a) == CASE o = "neg" -> 0 - a [] o = "abs" -> Abs1(a)
Int2(o, a, b) == CASE o = "+" -> a + b [] o = "-" -> a - b [] o = "*" -> a * b [] o = "min" -> Min2(a, b) [] o = "max" -> Max2(a, b)
IntC(o, a, b) == CASE o = "<" -> a < b [] o = "<=" -> a <= b [] o = ">" -> a > b [] o = ">=" -> a >= b [] o = "==" -> a = b [] o = "!=" -> a # b
RECURSIVE Val(_, _, _), Cond(_, _, _), First(_, _, _, _)
Val(ev, n, c) ==
  CASE n.k = "s" -> ev.k[n.i+1]
    [] n.k = "f" -> LET F == ev.f[n.i+1] IN F.pre[FIdx(F, c) + 1]
    [] n.k = "v" -> LET F == ev.sv[n.i+1] IN F.pre[FIdx(F, Zero3) + 1]
    [] n.k = "u" -> LET a == Val(ev, n.a, c) IN IF ev.md = "tab" THEN ev.tab[n.o \o ":" \o ToString(a)] ELSE Int1(n.o, a)
    [] n.k = "n" -> LET a == Val(ev, n.a, c)  b == Val(ev, n.b, c) IN
         IF ev.md = "tab" THEN ev.tab[n.o \o ":" \o ToString(a) \o ":" \o ToString(b)] ELSE Int2(n.o, a, b)
    [] n.k = "st" -> LET P == PointTable[<<n.op, n.s, n.d>>] IN OpValue(ev, n.op, n.s, n.d, [i \in 1..Len(P) |-> Val(ev, n.a, Add3(c, P[i]))])
    [] n.k = "stc" -> LET q == [i \in 1..Len(n.p) |-> Val(ev, n.a, Add3(c, n.p[i]))] IN DotQ(n.w, q) \div n.q
    [] n.k = "cond" -> First(ev, n, c, 1)
First(ev, n, c, i) == IF n.c[i].b.k = "else" THEN Val(ev, n.c[i].e, c) ELSE IF Cond(ev, n.c[i].b, c) THEN Val(ev, n.c[i].e, c) ELSE First(ev, n, c, i+1)
InMask(M, c) == \E j \in 1..Len(M.pts) : M.pts[j] = c
Cond(ev, n, c) ==
  CASE n.k = "bs"  -> ev.kb[n.i+1]
    [] n.k = "m"   -> InMask(ev.m[n.i+1], c)
    [] n.k = "ms"  -> InMask(ev.m[n.i+1], Add3(c, MaskPt(n)))
    [] n.k = "cmp" -> LET a == Val(ev, n.a, c)  b == Val(ev, n.b, c) IN
                      IF ev.md = "tab" THEN ev.tab[n.o \o ":" \o ToString(a) \o ":" \o ToString(b)] = 1 ELSE IntC(n.o, a, b)
    [] n.k = "and" -> Cond(ev, n.a, c) /\ Cond(ev, n.b, c)
    [] n.k = "or"  -> Cond(ev, n.a, c) \/ Cond(ev, n.b, c)
    [] n.k = "not" -> ~ Cond(ev, n.a, c)

(* ---- assignments and reductions ------------------------------------------------------------------------------ *)
InBox(c, lo, hi) == \A d \in D : lo[d] <= c[d] /\ c[d] < hi[d]
\* coordinate of the cell at flat position k of a field's memory (may lie outside the field's window)
CoordAt(F, k) == LET u == Unflat(F.w.g, k) IN <<u[1] - F.w.o[1] - F.g.m[1], u[2] - F.w.o[2] - F.g.m[2], u[3] - F.w.o[3] - F.g.m[3]>>
\* ghost counts an assignment to L covers; interior assignment: the interior and the boundary extras
AssignPG(ev, L) == IF ev.ug THEN GMin(TotalPG(L), PG(ev, ev.ast)) ELSE Ghost(Zero3, L.x)
RegionLo(g)    == Neg3(g.m)
RegionHi(n, g) == Add3(n, g.p)
\* a physical boundary is flagged, but the right-hand side does not reach the boundary extra
MustThrow(ev, L) == ~ev.lv /\ LET pg == PG(ev, ev.ast) IN \E d \in D : L.bc[d] = 1 /\ pg.p[d] < L.x[d]
=============================================================================
