------------------------------- MODULE TraceBC -------------------------------
(* Boundary conditions.  A condition at a point of the destination of a two-point operator determines one of the *)
(* two source cells (the designated one) so that the operator yields the prescribed value there.                 *)
EXTENDS TraceBase, Nebo
VARIABLES l, skip
vars == <<l, skip>>
Init == l = 1 /\ skip = FALSE
SC == 64
FS(ev) == [t |-> ev.s, x |-> ev.x, g |-> ev.g, v |-> ev.g, w |-> ev.w]
FD(ev) == [t |-> ev.d, x |-> ev.dx, g |-> ev.dg, v |-> ev.dg, w |-> ev.dw]
Direct(ev) == ev.form \in {"dpt", "dvec", "dvecg"}
PerPoint(ev) == ev.form \in {"pt", "dpt"}
Pts(ev) == PointTable[<<ev.op, ev.s, ev.d>>]
Want(ev, i) == SC * ev.vals[IF PerPoint(ev) THEN i ELSE 1]
\* value prescribed at point i of a mask condition: a constant, a field, or an expression
Gamma(ev, i) == LET gv == ev.gpre[FIdx(FD(ev), ev.pts[i]) + 1] IN
  CASE ev.gmode = 0 -> Want(ev, 1) [] ev.gmode = 1 -> gv [] ev.gmode = 2 -> 2*gv + Want(ev, 1)
Prescribed(ev, i) == IF ev.form = "nebo" THEN Gamma(ev, i) ELSE Want(ev, i)
Side(ev, i, s) == FIdx(FS(ev), Add3(ev.pts[i], Pts(ev)[s])) + 1
\* the operator at point i of the observed field
Got(ev, i) == OpValue(ev, ev.op, ev.s, ev.d, [q \in 1..2 |-> ev.post[Side(ev, i, q)]])
I(ev) == 1..Len(ev.pts)
SideSet(ev) == CASE ev.side = "minus" -> {1} [] ev.side = "plus" -> {2} [] OTHER -> {1, 2}
Designated(ev) == { Side(ev, i, s) : i \in I(ev), s \in SideSet(ev) }
Unchanged(ev, S) == \A k \in (1..Len(ev.pre)) \ S : ev.post[k] = ev.pre[k]
OpOK(ev) == /\ Unchanged(ev, Designated(ev))
            /\ \A i \in I(ev) : Got(ev, i) = Prescribed(ev, i)
            \* a wide stencil has no side: one cell is solved for, never both
            /\ ev.side = "none" => \A i \in I(ev) : \E s \in {1, 2} : ev.post[Side(ev, i, s)] = ev.pre[Side(ev, i, s)]
\* where the operator can be applied afterwards
Box(ev) == GMin(TotalPG(FD(ev)), ShrinkAll(TotalPG(FS(ev)), Pts(ev)))
AppOK(ev) == ev.app => \A i \in I(ev) : InBox(ev.pts[i], RegionLo(Box(ev)), RegionHi(ev.n, Box(ev))) =>
                          ev.dpost[FIdx(FD(ev), ev.pts[i]) + 1] = Prescribed(ev, i)
Cell(ev, i) == FIdx(FS(ev), ev.pts[i]) + 1
DirectOK(ev) == /\ Unchanged(ev, { Cell(ev, i) : i \in I(ev) })
                /\ \A i \in I(ev) : ev.post[Cell(ev, i)] = Want(ev, i)
ShapeOK(ev) == ev.w = FullWindow(FieldDims(ev.s, ev.n, ev.g, ev.bc)) /\ Len(ev.post) = Len(ev.pre)
OK(ev) == /\ ev.e = "BC" /\ ~ev.threw /\ ShapeOK(ev)
          /\ IF Direct(ev) THEN DirectOK(ev) ELSE OpOK(ev) /\ AppOK(ev)
          /\ ev.form = "nebo" => ev.gpost = ev.gpre
Exp(ev) == IF ev.e # "BC" THEN "a normal end" ELSE
  <<IF ev.threw THEN "no exception" ELSE "", "changed cells outside the designated",
    {k \in (1..Len(ev.pre)) \ (IF Direct(ev) THEN {Cell(ev, i) : i \in I(ev)} ELSE Designated(ev)) : ev.post[k] # ev.pre[k]},
    "prescribed", [i \in I(ev) |-> IF Direct(ev) THEN Want(ev, i) ELSE Prescribed(ev, i)], "operator gives", [i \in I(ev) |-> IF Direct(ev) THEN ev.post[Cell(ev, i)] ELSE Got(ev, i)]>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED skip
           ELSE IF OK(ev) THEN skip' = FALSE
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
