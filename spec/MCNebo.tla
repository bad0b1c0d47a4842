-------------------------------- MODULE MCNebo --------------------------------
(* The assignment machine: the destination's box is cut into parts, every part is walked cell by cell by its own *)
(* worker, workers interleave freely and read the memory as it is at that moment.  Checked for every expression  *)
(* shape, ghost configuration, boundary flag and number of parts within the bounds:                              *)
(*   - the box computed face by face from ghost counts is exactly the set of cells whose footprint is valid,     *)
(*   - no invalid cell is ever read,                                                                             *)
(*   - when all workers are done memory is the pointwise meaning of the statement, whatever the interleaving.    *)
EXTENDS Nebo, FiniteSetsExt
CONSTANTS NMax, VMax, PartMax, TwoD
VARIABLES ev, mem, pos, split
vars == <<ev, mem, pos, split>>
S0(i) == [k |-> "s", i |-> i]
F0(i) == [k |-> "f", i |-> i]
Bin(o, a, b) == [k |-> "n", o |-> o, a |-> a, b |-> b]
Stc(p, w, a) == [k |-> "stc", p |-> p, w |-> w, q |-> 1, a |-> a]
Op(o, s, t, a) == [k |-> "st", op |-> o, s |-> s, d |-> t, a |-> a]
Cnd(b, e, f) == [k |-> "cond", c |-> <<[b |-> b, e |-> e], [b |-> [k |-> "else"], e |-> f]>>]
Lt0(a, b) == [k |-> "cmp", o |-> "<", a |-> a, b |-> b]
\* field 0 is the destination (type T), fields 1, 2 have the listed types
P1 == << <<0,0,0>>, <<1,0,0>> >>   M1 == << <<-1,0,0>> >>   C2 == << <<-1,0,0>>, <<2,0,0>> >>  Y1 == << <<1,-1,0>>, <<0,1,0>> >>
Shapes ==
 { [t |-> <<"SVol","SVol","SVol">>, e |-> Bin("+", F0(1), Bin("*", F0(2), S0(0)))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Bin("-", F0(0), F0(1))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Cnd(Lt0(F0(1), F0(0)), Bin("+", F0(0), F0(2)), F0(0))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Stc(P1, <<2,-1>>, F0(1))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Bin("+", Stc(M1, <<3>>, Stc(P1, <<1,1>>, F0(1))), F0(2))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Bin("+", F0(0), Stc(C2, <<1,4>>, Bin("*", F0(1), F0(2))))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Cnd(Lt0(Stc(M1, <<1>>, F0(1)), S0(0)), Stc(P1, <<1,5>>, F0(2)), F0(0))],
   [t |-> <<"SSurfX","SVol","SSurfX">>, e |-> Op("Gradient", "SVol", "SSurfX", F0(1))],
   [t |-> <<"SVol","SSurfX","SVol">>, e |-> Bin("+", Op("Divergence", "SSurfX", "SVol", F0(1)), F0(0))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Op("Divergence", "SSurfX", "SVol", Op("Gradient", "SVol", "SSurfX", Bin("+", F0(1), F0(2))))],
   [t |-> <<"XVol","SVol","XVol">>, e |-> Bin("+", Op("Gradient", "SVol", "XVol", F0(1)), F0(2))],
   [t |-> <<"SVol","SVol","SVol">>, e |-> Op("GradientX", "SVol", "SVol", F0(1))] }
 \cup (IF TwoD THEN { [t |-> <<"SVol","SVol","SVol">>, e |-> Bin("+", F0(0), Stc(Y1, <<1,7>>, F0(1)))],
                      [t |-> <<"SVol","SVol","SVol">>, e |-> Stc(Y1, <<1,2>>, Stc(M1, <<1>>, F0(1)))],
                      [t |-> <<"XVol","YVol","XVol">>, e |-> Op("Gradient", "SVol", "XVol", Op("Gradient", "YVol", "SVol", F0(1)))] } ELSE {})
Field(t, n, bc, g, v, s) == LET w == FieldDims(t, n, g, bc) IN
  [t |-> t, g |-> g, v |-> v, bc |-> bc, x |-> HasExtra(t, bc), w |-> FullWindow(w),
   pre |-> [i \in 1..Prod3(w) |-> ((i * s) % 11) * 16]]
GX(a, b, y) == Ghost(<<a, y, 0>>, <<b, y, 0>>)
Init == \E sh \in Shapes : \E N \in 1..NMax : \E bx \in {0,1} : \E a0 \in 0..1, b0 \in 0..1, a1 \in 0..VMax, b1 \in 0..VMax, a2 \in 0..1, b2 \in 0..1 : \E k \in 1..PartMax :
    LET n == IF TwoD THEN <<N, 2, 1>> ELSE <<N, 1, 1>>
        bc == <<IF N > 1 THEN bx ELSE 0, 0, 0>>   y == IF TwoD THEN 1 ELSE 0
        Z(q) == IF N > 1 THEN q ELSE 0
        G0 == GX(Z(a0), Z(b0), y)  G1 == GX(Z(a1), Z(b1), y)  G2 == GX(Z(a2), Z(b2), y)
        e == [n |-> n, bc |-> bc, ug |-> TRUE, lv |-> FALSE, md |-> "int", k |-> <<3, 5>>, kb |-> <<>>, m |-> <<>>, sv |-> <<>>, sp8 |-> <<8,8,8>>, ast |-> sh.e,
              f |-> <<Field(sh.t[1], n, bc, G0, G0, 3), Field(sh.t[2], n, bc, GX(Z(VMax), Z(VMax), y), G1, 5), Field(sh.t[3], n, bc, G2, G2, 7)>>]
        g == AssignPG(e, e.f[1])  hi == RegionHi(n, g)  lo == RegionLo(g)  x == Sub3(hi, lo) IN
    /\ \A d \in D : x[d] > 0
    /\ ~MustThrow(e, e.f[1])
    /\ k <= x[1]
    /\ ev = e /\ mem = e.f[1].pre /\ split = <<k, IF TwoD /\ x[2] > 1 THEN 2 ELSE 1, 1>>
    /\ pos = [i \in 1..Prod3(split) |-> 0]
L == ev.f[1]
Lo == RegionLo(AssignPG(ev, L))
Hi == RegionHi(ev.n, AssignPG(ev, L))
\* the destination's window restricted to the box, and its parts
BoxWin == [g |-> L.w.g, o |-> Add3(Add3(L.w.o, L.g.m), Lo), x |-> Sub3(Hi, Lo)]
PartW(i) == Part(BoxWin, split, Unflat(split, i-1))
Now == [ev EXCEPT !.f[1].pre = mem]
Step(i) == /\ pos[i] < NPts(PartW(i))
           /\ LET a == MemAt(PartW(i), pos[i]) IN mem' = [mem EXCEPT ![a+1] = Val(Now, ev.ast, CoordAt(L, a))]
           /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED <<ev, split>>
Done == \A i \in DOMAIN pos : pos[i] = NPts(PartW(i))
Next == (\E i \in DOMAIN pos : Step(i)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* cells read when the expression is evaluated at c (a stencil's own cell counts as part of its footprint)
RECURSIVE Reads(_, _)
Reads(n, c) == CASE n.k \in {"s", "v", "bs", "else"} -> {}
                 [] n.k = "f" -> {<<n.i, c>>}
                 [] n.k = "u" -> Reads(n.a, c)
                 [] n.k \in {"n", "cmp"} -> Reads(n.a, c) \cup Reads(n.b, c)
                 [] n.k \in {"st", "stc"} -> Reads(n.a, c) \cup UNION {Reads(n.a, Add3(c, PtsOf(n)[i])) : i \in 1..Len(PtsOf(n))}
                 [] n.k = "cond" -> UNION {(IF n.c[i].b.k = "else" THEN {} ELSE Reads(n.c[i].b, c)) \cup Reads(n.c[i].e, c) : i \in 1..Len(n.c)}
ValidCell(r) == LET F == ev.f[r[1]+1] IN InBox(r[2], Neg3(F.v.m), Add3(ev.n, Add3(F.v.p, F.x)))
Initially == \A i \in DOMAIN pos : pos[i] = 0
BoxIsFootprint == Initially => \A k \in 0..(Prod3(L.w.g)-1) : LET c == CoordAt(L, k) IN
                     InBox(c, Lo, Hi) <=> \A r \in Reads(ev.ast, c) : ValidCell(r)
PartsTile == Initially => /\ UNION {Cells(PartW(i)) : i \in DOMAIN pos} = Cells(BoxWin)
                          /\ \A i, j \in DOMAIN pos : i # j => Cells(PartW(i)) \cap Cells(PartW(j)) = {}
Meaning == Done => \A k \in 0..(Prod3(L.w.g)-1) : LET c == CoordAt(L, k) IN
                     mem[k+1] = IF InBox(c, Lo, Hi) THEN Val(ev, ev.ast, c) ELSE L.pre[k+1]
=============================================================================
