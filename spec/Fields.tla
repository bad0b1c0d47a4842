------------------------------- MODULE Fields -------------------------------
(* The storage machine: pool buffers, field objects over them, and slots holding shared handles or field objects. *)
(* State st: sl slot -> [kd, o] (kd "-" free, "h" handle, "f" field object; o object number, 0 = null handle),   *)
(*           ob sequence of field objects, bf sequence of buffers, act/tot the pool's counts.                     *)
EXTENDS Geometry
Slots == 0..9
Free == [kd |-> "-", o |-> 0]
St0 == [sl |-> [k \in Slots |-> Free], ob |-> <<>>, bf |-> <<>>, act |-> 0, tot |-> 0]
Used(st)   == {k \in Slots : st.sl[k].kd # "-"}
Cnt(st, o) == Cardinality({k \in Slots : st.sl[k].kd = "h" /\ st.sl[k].o = o})
Obj(st, k) == st.ob[st.sl[k].o]
Mem(st, k) == st.bf[Obj(st, k).b].mem
Iota(n, v) == [i \in 1..n |-> v + i - 1]
SetSlot(st, k, kd, o) == [st EXCEPT !.sl[k] = [kd |-> kd, o |-> o]]
SetMem(st, k, m) == [st EXCEPT !.bf[Obj(st, k).b].mem = m]

\* ---- buffers.  a = address class of the buffer as observed (any identity will do)
PoolBuf(st, a) == {b \in 1..Len(st.bf) : st.bf[b].pool /\ st.bf[b].a = a}
\* the pool may hand out any buffer that is not out, or a fresh one
MayAcquire(st, a) == \A b \in PoolBuf(st, a) : ~st.bf[b].out
Acquire(st, a, n, v) == IF PoolBuf(st, a) = {}
   THEN [st EXCEPT !.bf = Append(@, [a |-> a, pool |-> TRUE, out |-> TRUE, mem |-> Iota(n, v)]), !.act = @ + 1, !.tot = @ + 1]
   ELSE LET b == CHOOSE x \in PoolBuf(st, a) : TRUE IN
        [st EXCEPT !.bf[b].out = TRUE, !.bf[b].mem = Iota(n, v), !.act = @ + 1]
BufOf(st, a) == CHOOSE b \in 1..Len(st.bf) : st.bf[b].a = a /\ (st.bf[b].pool => st.bf[b].out) /\ \A c \in (b+1)..Len(st.bf) : st.bf[c].a # a
Wrap(st, a, n, v) == [st EXCEPT !.bf = Append(@, [a |-> a, pool |-> FALSE, out |-> TRUE, mem |-> Iota(n, v)])]

\* ---- field objects
NewObj(t, w, g, bc, b, owner) ==
  [t |-> t, w |-> w, g |-> g, vg |-> g, bc |-> bc, b |-> b, owner |-> owner, noint |-> FALSE,
   wi |-> [g |-> w.g, o |-> [d \in D |-> w.o[d] + (IF w.x[d] > 1 THEN g.m[d] ELSE 0)],
                      x |-> [d \in D |-> w.x[d] - (IF w.x[d] > 1 THEN g.m[d] + g.p[d] ELSE 0)]]]
AddObj(st, k, kd, ob) == SetSlot([st EXCEPT !.ob = Append(@, ob)], k, kd, Len(st.ob) + 1)
\* owner: "store" (returned to the pool by the last handle), "self" (returned by the object), "none"
Kill(st, o) == IF st.ob[o].owner = "none" THEN st
               ELSE [st EXCEPT !.bf[st.ob[o].b].out = FALSE, !.act = @ - 1]
DropRef(st, k) == LET o == st.sl[k].o  s == SetSlot(st, k, st.sl[k].kd, 0) IN
                  IF o = 0 THEN st ELSE IF Cnt(st, o) > 1 THEN s ELSE Kill(s, o)
DropField(st, k) == Kill(st, st.sl[k].o)
Drop(st, k) == CASE st.sl[k].kd = "-" -> st
                 [] st.sl[k].kd = "h" -> SetSlot(DropRef(st, k), k, "-", 0)
                 [] OTHER -> SetSlot(DropField(st, k), k, "-", 0)

\* ---- views
CutsInterior(w, wi) == \E d \in D : w.o[d] > wi.o[d] \/ w.x[d] + w.o[d] < wi.o[d] + wi.x[d]
View(ob, w) == [ob EXCEPT !.w = w, !.vg = ob.g, !.owner = "none", !.noint = ob.noint \/ CutsInterior(w, ob.wi)]
ResetValid(ob, v) == LET df == Sub3(ob.vg.m, v.m) IN
  [ob EXCEPT !.w = [g |-> ob.w.g, o |-> Add3(ob.w.o, df), x |-> Add3(Sub3(Sub3(ob.w.x, df), ob.vg.p), v.p)], !.vg = v]
\* a field of type t modelled on object ob
GetDims(t, ob) == Add3(ob.w.x, Mul3(ob.bc, Sub3(FieldType[t].bcx, FieldType[ob.t].bcx)))
Copied(ob, m, other) == LET C == CellSeq(ob.w) IN [i \in 1..Len(m) |-> IF \E c \in 1..Len(C) : C[c] = i - 1 THEN other[i] ELSE m[i]]
WrittenAt(m, i, v) == [m EXCEPT ![i+1] = v]
FillWin(m, w, v) == LET G == [i \in Cells(w) |-> CHOOSE n \in 0..(NPts(w)-1) : MemAt(w, n) = i] IN
                    [i \in 1..Len(m) |-> IF (i-1) \in Cells(w) THEN v + G[i-1] ELSE m[i]]
=============================================================================
