------------------------------ MODULE TraceXfer ------------------------------
(* Transfers between mesh fields and point fields or particles.                                                  *)
EXTENDS TraceBase, Geometry
VARIABLES l, skip
vars == <<l, skip>>
Init == l = 1 /\ skip = FALSE
SC == 128
(* ---- points: a list of positions in the field's memory, given or read off the nonzero cells of a field's window *)
Marked(ev) == SelectSeq(CellSeq(ev.lw), LAMBDA m : ev.mk[m+1] = 1)
Idx(ev) == IF ev.form = "field" THEN Marked(ev) ELSE ev.idx
\* the later of two points at the same cell wins
LastAt(ix, m) == LET S == {i \in 1..Len(ix) : ix[i] = m} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
PointsOK(ev) == LET ix == Idx(ev) IN
  /\ ~ev.threw /\ Len(ev.ppre) = Len(ix) /\ Len(ev.ppost) = Len(ix) /\ Len(ev.fpost) = Len(ev.fpre)
  /\ IF ev.dir = "f2p" THEN ev.fpost = ev.fpre /\ \A i \in 1..Len(ix) : ev.ppost[i] = ev.fpre[ix[i]+1]
     ELSE ev.ppost = ev.ppre /\ \A m \in 0..(Len(ev.fpre)-1) : ev.fpost[m+1] = LET i == LastAt(ix, m) IN IF i = 0 THEN ev.fpre[m+1] ELSE ev.ppre[i]
(* ---- particles on a one-dimensional uniform mesh; lengths doubled so that half widths are whole                 *)
Dx(ev) == ev.x[2] - ev.x[1]
Uniform(ev) == \A i \in 1..(Len(ev.x)-1) : ev.x[i+1] - ev.x[i] = Dx(ev)
Lo(ev, k) == 2*ev.x[k] - Dx(ev)
Hi(ev, k) == 2*ev.x[k] + Dx(ev)
PLo(ev, p) == 2*ev.px[p] - ev.ps[p]
PHi(ev, p) == 2*ev.px[p] + ev.ps[p]
\* (doubled) length of the particle inside cell k
Overlap(ev, p, k) == LET a == Max2(Lo(ev,k), PLo(ev,p))  b == Min2(Hi(ev,k), PHi(ev,p)) IN IF b > a THEN b - a ELSE 0
RECURSIVE SumF(_, _, _)
SumF(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumF(f, i+1, n)
\* a*b/c without large intermediate values
MulDiv(a, b, c) == (a \div c)*b + ((a % c)*b) \div c
Deposit(ev, k) == LET F(p) == MulDiv(ev.ppre[p], Overlap(ev, p, k), 2*ev.ps[p]) IN SumF(F, 1, Len(ev.px))
Average(ev, p) == LET F(k) == MulDiv(ev.fpre[k], Overlap(ev, p, k), 2*ev.ps[p]) IN SumF(F, 1, Len(ev.x))
Total(s) == LET F(i) == s[i] IN SumF(F, 1, Len(s))
Inside(ev, p) == Lo(ev, 1) <= PLo(ev, p) /\ PHi(ev, p) <= Hi(ev, Len(ev.x))
PartsOK(ev) ==
  IF ~Uniform(ev) THEN ev.threw = "exception" /\ ev.fpost = ev.fpre /\ ev.ppost = ev.ppre
  ELSE /\ ev.threw = "none" /\ ev.rest
       /\ IF ev.dir = "p2c" THEN /\ ev.ppost = ev.ppre
                                 /\ \A k \in 1..Len(ev.x) : ev.fpost[k] = Deposit(ev, k)
                                 /\ (\A p \in 1..Len(ev.px) : Inside(ev, p)) => Total(ev.fpost) = Total(ev.ppre)
          ELSE ev.fpost = ev.fpre /\ \A p \in 1..Len(ev.px) : ev.ppost[p] = Average(ev, p)
OK(ev) == CASE ev.e = "Points" -> PointsOK(ev) [] ev.e = "Particles" -> PartsOK(ev) [] OTHER -> FALSE
Exp(ev) == CASE ev.e = "Points" -> <<"indices", Idx(ev)>>
             [] ev.e = "Particles" -> IF ~Uniform(ev) THEN <<"exception">> ELSE IF ev.dir = "p2c" THEN [k \in 1..Len(ev.x) |-> Deposit(ev, k)] ELSE [p \in 1..Len(ev.px) |-> Average(ev, p)]
             [] OTHER -> "a normal end"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED skip
           ELSE IF OK(ev) THEN skip' = FALSE
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
