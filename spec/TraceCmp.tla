------------------------------ MODULE TraceCmp -------------------------------
(* Field comparisons, and the weights of one-dimensional Lagrange interpolation and differentiation.              *)
EXTENDS TraceBase, Geometry
VARIABLES l, skip
vars == <<l, skip>>
Init == l = 1 /\ skip = FALSE

(* ---- comparisons: tolerance p/q, absolute floor eap/eaq, values whole (or steps of one unit in the last place   *)
(* around a common centre c, for which far = more steps than any tolerance tested)                                *)
Far == 1000000000
Steps(c, k, d, m) == IF c = d THEN Abs1(k - m) ELSE Far
CellOK(ev, ac, a, bc, b) ==
  CASE ev.kind = "exact" -> a = b
    [] ev.kind = "abs" -> IF ev.p = 0 THEN a = b ELSE Abs1(a - b) * ev.q <= Abs1(ev.p)
    [] ev.kind = "ulp" -> Steps(ac, a, bc, b) <= ev.p
    \* |a-b| <= p/q * (|reference| + eap/eaq)
    [] ev.kind = "rel" -> IF ev.p = 0 THEN a = b ELSE Abs1(a - b) * ev.q * ev.eaq <= Abs1(ev.p) * (Abs1(a)*ev.eaq + ev.eap)
Vals(F) == LET cs == CellSeq(F.w) IN [i \in 1..Len(cs) |-> <<F.c[cs[i]+1], F.k[cs[i]+1]>>]
Want(ev) == LET A == Vals(ev.a) IN
  IF ev.form = "field" THEN LET B == Vals(ev.b) IN \A i \in 1..Len(A) : CellOK(ev, A[i][1], A[i][2], B[i][1], B[i][2])
  \* the constant is the reference
  ELSE \A i \in 1..Len(A) : CellOK(ev, ev.cc, ev.cst, A[i][1], A[i][2])
\* without an explicit floor a floor proportional to the norm of the field is used: at most 10^-6 * tolerance * the sum of magnitudes
RECURSIVE SumAbs(_, _)
SumAbs(s, i) == IF i = 0 THEN 0 ELSE Abs1(s[i][2]) + SumAbs(s, i-1)
Loose(ev, F) == [ev EXCEPT !.eap = Abs1(ev.p) * SumAbs(Vals(F), Len(Vals(F))), !.eaq = 100000]
CmpOK(ev) ==
  IF ev.form = "field" /\ ev.a.w # ev.b.w THEN ev.te /\ ev.tn /\ ev.same
  ELSE /\ ~ev.te /\ ~ev.tn /\ ev.same /\ ev.ne = 1 - ev.eq
       /\ IF ev.kind = "rel" /\ ~ev.wea /\ ev.p # 0 THEN (Want(ev) => ev.eq = 1) /\ (ev.eq = 1 => Want(Loose(ev, ev.a)))
          ELSE ev.eq = B2I(Want(ev))

(* ---- Lagrange weights.  Mesh and position doubled; weights come multiplied by their denominators               *)
RECURSIVE ProdF(_, _, _)
ProdF(f(_), i, n) == IF i > n THEN 1 ELSE f(i) * ProdF(f, i+1, n)
RECURSIVE SumF(_, _, _)
SumF(f(_), i, n) == IF i > n THEN 0 ELSE f(i) + SumF(f, i+1, n)
X(ev, k) == ev.m[ev.ix[k] + 1]
N(ev) == Len(ev.ix)
Numer(ev, k) == LET F(j) == IF j = k THEN 1 ELSE ev.x - X(ev, j) IN ProdF(F, 1, N(ev))
DNumer(ev, k) == LET T(j) == IF j = k THEN 0 ELSE LET F(i) == IF i \in {j, k} THEN 1 ELSE ev.x - X(ev, i) IN ProdF(F, 1, N(ev)) IN SumF(T, 1, N(ev))
Denom(ev, k) == LET F(j) == IF j = k THEN 1 ELSE X(ev, k) - X(ev, j) IN ProdF(F, 1, N(ev))
Weight(ev, k) == IF ev.der THEN DNumer(ev, k) ELSE Numer(ev, k)
\* contiguous, one more than the order, inside the mesh, as centred around the position as the ends allow
Below(ev) == Cardinality({i \in 1..N(ev) : X(ev, i) < ev.x})
Above(ev) == Cardinality({i \in 1..N(ev) : X(ev, i) > ev.x})
Centred(ev) == LET nx == Len(ev.m)  d == Below(ev) - Above(ev) IN
  /\ d >= 2 => ev.ix[N(ev)] = nx - 1
  /\ d <= -2 => ev.ix[1] = 0
Points(ev) == /\ N(ev) = ev.o + 1 /\ ev.nw = N(ev) /\ \A k \in 1..N(ev) : ev.ix[k] \in 0..(Len(ev.m)-1)
              /\ \A k \in 1..(N(ev)-1) : ev.ix[k+1] = ev.ix[k] + 1
              /\ Centred(ev)
Exact(ev) == \A k \in 1..N(ev) : ev.w[k] = Weight(ev, k)
\* the value obtained from data: sum of weight * datum (times a common denominator vd)
Scaled(ev) == LET F(k) == (ev.vd * Weight(ev, k) * ev.y[ev.ix[k]+1] * (IF ev.der THEN 2 ELSE 1)) \div Denom(ev, k) IN SumF(F, 1, N(ev))
LagOK(ev) == ~ev.threw /\ ev.same /\ Points(ev) /\ Exact(ev) /\ ev.v = Scaled(ev)
OK(ev) == CASE ev.e = "Cmp" -> CmpOK(ev) [] ev.e = "Lag" -> LagOK(ev) [] OTHER -> FALSE
Exp(ev) == CASE ev.e = "Cmp" -> (IF ev.form = "field" /\ ev.a.w # ev.b.w THEN <<"exception">> ELSE <<"equal", Want(ev)>>)
             [] ev.e = "Lag" -> (IF ~Points(ev) THEN <<"order+1 contiguous points around the position">> ELSE <<"weights", [k \in 1..N(ev) |-> Weight(ev, k)], "value", Scaled(ev)>>)
             [] OTHER -> "a normal end"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED skip
           ELSE IF OK(ev) THEN skip' = FALSE
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
