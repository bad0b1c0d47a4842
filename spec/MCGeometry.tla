---------------------------- MODULE MCGeometry ----------------------------
(* Exhaustive check, within small sizes, that the definitions of Geometry have the listed properties:             *)
(* indexing is a bijection (P04), refinement tiles (P05), the ghost algebra laws hold (P09).                      *)
EXTENDS Geometry
CONSTANTS N, NG
VARIABLES w, s, a, b, c, k
vars == <<w, s, a, b, c, k>>
Sizes == {<<x,y,z>> : x \in 1..N, y \in 1..N, z \in 1..2}
Off(g, x) == {o \in (0..(N-1)) \X (0..(N-1)) \X (0..1) : \A d \in D : o[d] + x[d] <= g[d]}
Ext(g) == {x \in (1..N) \X (1..N) \X (1..2) : \A d \in D : x[d] <= g[d]}
GS  == {Ghost(<<i,j,0>>, <<l,0,i>>) : i \in 0..NG, j \in 0..NG, l \in 0..NG} \cup {Ghost(<<GhostMax,GhostMax,GhostMax>>, <<GhostMax,GhostMax,GhostMax>>)}
Dummy == [g |-> <<1,1,1>>, o |-> Zero3, x |-> <<1,1,1>>]
G0 == Ghost(Zero3, Zero3)
InitW == /\ k = "win" /\ a = G0 /\ b = G0 /\ c = G0
         /\ \E g \in Sizes : \E x \in Ext(g) : \E o \in Off(g, x) :
              /\ w = [g |-> g, o |-> o, x |-> x]
              /\ s \in Ext(x)
InitG == k = "ghost" /\ w = Dummy /\ s = <<1,1,1>> /\ a \in GS /\ b \in GS /\ c \in GS
\* sizing: w is the window of a field of type s for dimensions a.m with ghosts b and boundary flags c.m
Dims == {<<i,j,l>> : i \in 1..3, j \in 1..3, l \in 1..2}
Flags == {<<i,j,l>> : i \in 0..1, j \in 0..1, l \in 0..1}
InitS == /\ k = "size" /\ s \in DOMAIN FieldType /\ a \in {Ghost(d, Zero3) : d \in Dims} /\ c \in {Ghost(f, Zero3) : f \in Flags}
         /\ b \in {Ghost(<<i,j,0>>, <<j,l,i>>) : i \in 0..NG, j \in 0..1, l \in 0..NG}
         /\ w = FullWindow(FieldDims(s, a.m, b, c.m))
Next == UNCHANGED vars
SpecW == InitW /\ [][Next]_vars
SpecG == InitG /\ [][Next]_vars
SpecS == InitS /\ [][Next]_vars
Bijection == k = "win" => /\ WindowOK(w)
                          /\ Cardinality(Cells(w)) = NPts(w)
                          /\ \A n \in 0..(NPts(w)-1) : Flat(w.x, LocalAt(w, n)) = n
                          /\ \A m \in 0..(Prod3(w.g)-1) : Flat(w.g, Unflat(w.g, m)) = m
                          /\ \A n \in Cells(w) : n >= 0 /\ n < Prod3(w.g)
Tiling == k = "win" => LET P == Parts(w, s) IN
            /\ \A i \in DOMAIN P : WindowOK(P[i]) /\ Cells(P[i]) \subseteq Cells(w)
            /\ UNION {Cells(P[i]) : i \in DOMAIN P} = Cells(w)
            /\ \A i, j \in DOMAIN P : i # j => Cells(P[i]) \cap Cells(P[j]) = {}
            /\ \A i, j \in DOMAIN P : \A d \in D : P[i].x[d] - P[j].x[d] \in {-1, 0, 1}
GhostLaws == k = "ghost" =>
            /\ GMin(a, b) = GMin(b, a) /\ GMin(a, GMin(b, c)) = GMin(GMin(a, b), c) /\ GMin(a, a) = a
            /\ (InfG(b) => GMin(a, b) = a /\ GAdd(a, b) = b)
            /\ (InfG(a) => GAdd(a, b) = a)
            /\ (~InfG(b) /\ ~InfG(a) => GSub(GAdd(a, b), b) = a /\ GAdd(a, b) = GAdd(b, a))
            /\ \A v \in {a.m, Neg3(a.m), Sub3(a.m, b.p)} : ~InfG(a) /\ ~InfG(b) => Sub3(Pt2G(v).p, Pt2G(v).m) = v /\ Pt2G(Neg3(v)) = Ghost(Pt2G(v).p, Pt2G(v).m)
Sizing == k = "size" => LET e == EffGhost(a.m, b)  in == Interior(w.g, e)  x == Mul3(FieldType[s].bcx, c.m) IN
            /\ WindowOK(w) /\ WindowOK(in) /\ Cells(in) \subseteq Cells(w)
            /\ \A d \in D : a.m[d] > 1 => in.x[d] = a.m[d] + x[d] /\ w.x[d] = in.x[d] + e.m[d] + e.p[d] /\ in.o[d] = e.m[d]
            /\ \A d \in D : a.m[d] = 1 => w.x[d] = 1 /\ in.x[d] = 1
\* a face field of a volume type is staggered by half a cell in its face direction only
Staggering == k = "size" => \A v \in DOMAIN FaceOf : \A d \in D :
            LET f == FieldType[FaceOf[v][d]]  df == Sub3(f.off, FieldType[v].off) IN
            f.fd = d - 1 /\ Abs1(df[d]) = 1 /\ \A q \in D : q # d => df[q] = 0
=============================================================================
