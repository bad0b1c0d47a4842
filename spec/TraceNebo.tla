------------------------------ MODULE TraceNebo ------------------------------
(* Recorded field statements (complete memory before and after) against Nebo.                                    *)
EXTENDS TraceBase, Nebo, SequencesExt
VARIABLES l, skip
vars == <<l, skip>>
Init == l = 1 /\ skip = FALSE

Used(F) == F.t # "none"
NOf(ev, F) == IF F.t = "SingleValue" THEN <<1,1,1>> ELSE ev.n
\* the recorded shapes are those of the operands' types for this grid
ShapeOK(ev) == \A F \in {ev.f[i] : i \in 1..Len(ev.f)} : Used(F) => F.x = HasExtra(F.t, F.bc) /\ F.w.x = FieldDims(F.t, ev.n, F.g, F.bc)
Same(q) == q.post = q.pre
OthersSame(ev, i, lv) == /\ \A j \in 1..Len(ev.f) : (lv \/ j # i) => (Used(ev.f[j]) => Same(ev.f[j]))
                         /\ \A j \in 1..Len(ev.sv) : (~lv \/ j # i) => (Used(ev.sv[j]) => Same(ev.sv[j]))
LhsOf(ev) == IF ev.lv THEN ev.sv[ev.lhs+1] ELSE ev.f[ev.lhs+1]
CellsOK(ev, L) == LET g == AssignPG(ev, L)  lo == RegionLo(g)  hi == RegionHi(NOf(ev, L), g)  N == Prod3(L.w.g) IN
  /\ Len(L.post) = N /\ Len(L.pre) = N
  /\ \A k \in 0..(N-1) : LET c == CoordAt(L, k) IN
        IF InBox(c, lo, hi) THEN L.post[k+1] = Val(ev, ev.ast, c) ELSE L.post[k+1] = L.pre[k+1]
AssignOK(ev) == LET L == LhsOf(ev) IN
  /\ ShapeOK(ev) /\ OthersSame(ev, ev.lhs+1, ev.lv)
  /\ ev.threw = MustThrow(ev, L)
  /\ IF ev.threw THEN Same(L) ELSE CellsOK(ev, L)

\* reductions: the cells of the region, in memory order
RedPG(ev) == PG(ev, ev.ast)
RedLo(ev) == IF ev.in THEN Zero3 ELSE RegionLo(RedPG(ev))
RedHi(ev) == IF ev.in THEN ev.rn ELSE RegionHi(ev.rn, RedPG(ev))
RedCells(ev) == LET lo == RedLo(ev)  hi == RedHi(ev)  x == Sub3(hi, lo) IN [n \in 1..Prod3(x) |-> Add3(lo, Unflat(x, n-1))]
Mod(a, m) == ((a % m) + m) % m
Plus(a, b) == a + b
Sq(a, b) == a + b*b
Fd(a, b) == Mod(a*31 + b + 1000*65521, 65521)
Fi(a, b) == Mod(a*17 + b + 1000*32749, 32749)
Reduction(ev) == LET cs == RedCells(ev)  q == [i \in 1..Len(cs) |-> Val(ev, ev.ast, cs[i])] IN
  CASE ev.rk = "sum"  -> FoldLeft(Plus, 0, q)
    [] ev.rk = "max"  -> FoldLeft(Max2, q[1], q)
    [] ev.rk = "min"  -> FoldLeft(Min2, q[1], q)
    [] ev.rk = "norm" -> FoldLeft(Sq, 0, q)
    [] ev.rk = "red"  -> FoldLeft(Fd, q[1], Tail(q))
    [] ev.rk = "fold" -> FoldLeft(Fd, 7, q)
    [] ev.rk = "seq" -> IF ev.seq = q THEN Len(cs) ELSE -1
    [] ev.rk = "foldi" -> FoldLeft(Fi, 5, q)
ReduceOK(ev) == /\ ShapeOK(ev) /\ \A j \in 1..Len(ev.f) : Used(ev.f[j]) => Same(ev.f[j])
                /\ \A j \in 1..Len(ev.sv) : Used(ev.sv[j]) => Same(ev.sv[j])
                /\ ~ev.threw /\ ev.r = Reduction(ev)
OK(ev) == CASE ev.e = "Assign" -> AssignOK(ev) [] ev.e = "Reduce" -> ReduceOK(ev)
            [] ev.e = "OpDB" -> {ev.ops[i] : i \in 1..Len(ev.ops)} = OpTriples [] OTHER -> FALSE
Bad(ev, L) == LET g == AssignPG(ev, L)  lo == RegionLo(g)  hi == RegionHi(NOf(ev, L), g) IN
  { k \in 0..(Prod3(L.w.g)-1) : LET c == CoordAt(L, k) IN L.post[k+1] # (IF InBox(c, lo, hi) THEN Val(ev, ev.ast, c) ELSE L.pre[k+1]) }
Exp(ev) == CASE ev.e = "Assign" -> (LET L == LhsOf(ev)  g == AssignPG(ev, L) IN
                  IF MustThrow(ev, L) \/ ev.threw THEN <<"throws", MustThrow(ev, L)>>
                  ELSE LET B == Bad(ev, L)  k == CHOOSE q \in B : \A r \in B : q <= r IN
                       IF B = {} THEN <<"box", RegionLo(g), RegionHi(NOf(ev, L), g), "no other field changes">>
                       ELSE <<"box", RegionLo(g), RegionHi(NOf(ev, L), g), "wrong cells", Cardinality(B), "first at", CoordAt(L, k), "observed", L.post[k+1], "expected",
                              IF InBox(CoordAt(L,k), RegionLo(g), RegionHi(NOf(ev, L), g)) THEN Val(ev, ev.ast, CoordAt(L,k)) ELSE L.pre[k+1]>>)
             [] ev.e = "Reduce" -> <<"box", RedLo(ev), RedHi(ev), "result", Reduction(ev)>>
             [] OTHER -> "a normal end"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED skip
           ELSE IF OK(ev) THEN skip' = FALSE
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
