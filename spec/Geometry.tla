------------------------------ MODULE Geometry ------------------------------
(* Index space of structured fields: 3-vectors, memory windows, refinement, ghost algebra, field sizing.         *)
EXTENDS Integers, Sequences, FiniteSets
D == 1..3
Vec(f(_)) == <<f(1), f(2), f(3)>>
Add3(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Sub3(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Mul3(a, b) == <<a[1]*b[1], a[2]*b[2], a[3]*b[3]>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs1(a)    == IF a < 0 THEN 0 - a ELSE a
Min3(a, b) == <<Min2(a[1],b[1]), Min2(a[2],b[2]), Min2(a[3],b[3])>>
Neg3(a)    == <<0-a[1], 0-a[2], 0-a[3]>>
Zero3      == <<0,0,0>>
Prod3(a)   == a[1]*a[2]*a[3]
B2I(b)     == IF b THEN 1 ELSE 0

\* column-major position of point p in a block of size g, and back
Flat(g, p)   == p[1] + p[2]*g[1] + p[3]*g[1]*g[2]
Unflat(g, n) == <<n % g[1], (n \div g[1]) % g[2], n \div (g[1]*g[2])>>

(* A window is a record [g |-> global size, o |-> offset, x |-> extent]. *)
WindowOK(w) == \A d \in D : w.g[d] > 0 /\ w.o[d] >= 0 /\ w.x[d] > 0 /\ w.o[d] + w.x[d] <= w.g[d]
NPts(w)     == Prod3(w.x)
LocalAt(w, n)    == Unflat(w.x, n)                       \* n-th point (0-based), local
FlatIndex(w, p)  == Flat(w.g, Add3(p, w.o))              \* local point -> position in memory
MemAt(w, n)      == FlatIndex(w, LocalAt(w, n))
Cells(w)         == {MemAt(w, n) : n \in 0..(NPts(w)-1)}
CellSeq(w)       == [n \in 1..NPts(w) |-> MemAt(w, n-1)]

(* Refinement: part loc of a split s. *)
PartX(w, s, loc, d) == (w.x[d] \div s[d]) + B2I(loc[d] < w.x[d] % s[d])
PartO(w, s, loc, d) == w.o[d] + (w.x[d] \div s[d]) * loc[d] + Min2(loc[d], w.x[d] % s[d])
Part(w, s, loc) == [g |-> w.g, o |-> <<PartO(w,s,loc,1), PartO(w,s,loc,2), PartO(w,s,loc,3)>>,
                               x |-> <<PartX(w,s,loc,1), PartX(w,s,loc,2), PartX(w,s,loc,3)>>]
Parts(w, s)     == [k \in 1..Prod3(s) |-> Part(w, s, Unflat(s, k-1))]

(* Ghost counts: [m |-> minus faces, p |-> plus faces]. *)
GhostMax == 9001
InfG(g)  == \A d \in D : g.m[d] >= GhostMax /\ g.p[d] >= GhostMax
Ghost(m, p) == [m |-> m, p |-> p]
GAdd(a, b) == IF InfG(a) THEN a ELSE IF InfG(b) THEN b ELSE Ghost(Add3(a.m,b.m), Add3(a.p,b.p))
GSub(a, b) == Ghost(Sub3(a.m,b.m), Sub3(a.p,b.p))        \* only when b is finite
GMin(a, b) == Ghost(Min3(a.m,b.m), Min3(a.p,b.p))
Pt2G(v)    == Ghost(<<Max2(0,0-v[1]), Max2(0,0-v[2]), Max2(0,0-v[3])>>, <<Max2(0,v[1]), Max2(0,v[2]), Max2(0,v[3])>>)
GEq(a, b)  == a.m = b.m /\ a.p = b.p

(* Field types: staggering offset, extra cells at a physical (+) boundary, face direction (0,1,2; 3 = none). *)
FT(off, bcx, fd) == [off |-> off, bcx |-> bcx, fd |-> fd]
FieldType == [
  SVol   |-> FT(<< 0, 0, 0>>, <<0,0,0>>, 3), SSurfX |-> FT(<<-1, 0, 0>>, <<1,0,0>>, 0),
  SSurfY |-> FT(<< 0,-1, 0>>, <<0,1,0>>, 1), SSurfZ |-> FT(<< 0, 0,-1>>, <<0,0,1>>, 2),
  XVol   |-> FT(<<-1, 0, 0>>, <<1,0,0>>, 3), XSurfX |-> FT(<< 0, 0, 0>>, <<0,0,0>>, 0),
  XSurfY |-> FT(<<-1,-1, 0>>, <<0,1,0>>, 1), XSurfZ |-> FT(<<-1, 0,-1>>, <<0,0,1>>, 2),
  YVol   |-> FT(<< 0,-1, 0>>, <<0,1,0>>, 3), YSurfX |-> FT(<<-1,-1, 0>>, <<1,0,0>>, 0),
  YSurfY |-> FT(<< 0, 0, 0>>, <<0,0,0>>, 1), YSurfZ |-> FT(<< 0,-1,-1>>, <<0,0,1>>, 2),
  ZVol   |-> FT(<< 0, 0,-1>>, <<0,0,1>>, 3), ZSurfX |-> FT(<<-1, 0,-1>>, <<1,0,0>>, 0),
  ZSurfY |-> FT(<< 0,-1,-1>>, <<0,1,0>>, 1), ZSurfZ |-> FT(<< 0, 0, 0>>, <<0,0,0>>, 2),
  SingleValue |-> FT(<<0,0,0>>, <<0,0,0>>, 3) ]
FaceOf == [ SVol |-> <<"SSurfX","SSurfY","SSurfZ">>, XVol |-> <<"XSurfX","XSurfY","XSurfZ">>,
            YVol |-> <<"YSurfX","YSurfY","YSurfZ">>, ZVol |-> <<"ZSurfX","ZSurfY","ZSurfZ">> ]

(* Sizing: extra cells actually present, window of a field for a grid. *)
HasExtra(t, bc)   == Mul3(FieldType[t].bcx, bc)
DimWithGhost(n, m, p, x) == IF n > 1 THEN n + m + p + x ELSE 1
FieldDims(t, dim, g, bc) == LET h == HasExtra(t, bc) IN
  <<DimWithGhost(dim[1],g.m[1],g.p[1],h[1]), DimWithGhost(dim[2],g.m[2],g.p[2],h[2]), DimWithGhost(dim[3],g.m[3],g.p[3],h[3])>>
FullWindow(n) == [g |-> n, o |-> Zero3, x |-> n]
\* ghosts really present: none in a degenerate direction
EffGhost(dim, g) == Ghost([d \in D |-> IF dim[d] > 1 THEN g.m[d] ELSE 0], [d \in D |-> IF dim[d] > 1 THEN g.p[d] ELSE 0])
\* window of a field with ghosts g when only the ghosts v (<= g) are valid / when none are
ValidWindow(n, g, v) == [g |-> n, o |-> Sub3(g.m, v.m), x |-> Sub3(Sub3(n, Sub3(g.m, v.m)), Sub3(g.p, v.p))]
Interior(n, g)       == ValidWindow(n, g, Ghost(Zero3, Zero3))
=============================================================================
