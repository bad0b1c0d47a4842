----------------------------- MODULE MCHandles -----------------------------
(* Exhaustive exploration of the handle part of the storage machine: every history of construction, copy,        *)
(* assignment, detach and destruction over K handle slots and at most MaxObj fields.  With EDGES=1 every         *)
(* transition is printed; the replay driver turns the graph into covering call sequences for the real code.      *)
EXTENDS Fields, TLC, IOUtils
CONSTANTS K, MaxObj
VARIABLE st
Ks == 0..(K-1)
W1 == FullWindow(<<2,1,1>>)
G1 == Ghost(Zero3, Zero3)
MkObj(b, owner) == NewObj("SVol", W1, G1, Zero3, b, owner)
Addrs == {<<0, i>> : i \in 1..MaxObj}
FreeAddr(s) == {a \in Addrs : MayAcquire(s, a) /\ \A b \in 1..Len(s.bf) : ~s.bf[b].pool => s.bf[b].a # a}
\* one representative: a returned buffer if there is one, else the next fresh address
PickAddr(s) == LET F == {a \in FreeAddr(s) : PoolBuf(s, a) # {}} IN
               IF F # {} THEN CHOOSE a \in F : TRUE ELSE <<0, 1 + Len(s.bf)>>
Room(s) == Len(s.ob) < MaxObj
StoreIn(s, k) == LET a == PickAddr(s)  s1 == Acquire(s, a, 2, 0) IN AddObj(s1, k, "h", MkObj(BufOf(s1, a), "store"))
UserIn(s, k)  == LET s1 == Wrap(s, <<1, Len(s.bf)>>, 2, 0) IN AddObj(s1, k, "h", MkObj(Len(s1.bf), "none"))
\* a canonical text of a state
N(s) == ToString(<<[k \in 1..K |-> <<s.sl[k-1].kd, s.sl[k-1].o>>], [o \in 1..Len(s.ob) |-> <<s.ob[o].owner, s.ob[o].b>>],
                   [b \in 1..Len(s.bf) |-> <<s.bf[b].a, s.bf[b].pool, s.bf[b].out>>]>>)
Edge(op, s) == (("EDGES" \in DOMAIN IOEnv) => PrintT("EDGE|" \o N(st) \o "|" \o op \o "|" \o N(s))) /\ st' = s
S(k) == ToString(k)
\* forgets dead objects so that histories of any length stay within the bound
Live(s) == {o \in 1..Len(s.ob) : \E k \in Slots : s.sl[k].o = o}
Init == st = St0
IsH(k) == st.sl[k].kd = "h"
IsFree(k) == st.sl[k].kd = "-"
Next == \E k \in Ks :
  \/ IsFree(k) /\ Edge("hEmpty " \o S(k) \o " SVol", SetSlot(st, k, "h", 0))
  \/ IsFree(k) /\ Edge("hNull " \o S(k) \o " SVol", SetSlot(st, k, "h", 0))
  \/ IsFree(k) /\ Room(st) /\ Edge("hStore " \o S(k) \o " SVol 2 1 1 0 0 0 0 0 0 0 0 0 100", StoreIn(st, k))
  \/ IsFree(k) /\ Room(st) /\ Edge("hUser " \o S(k) \o " SVol 2 1 1 0 0 0 0 0 0 0 0 0 200", UserIn(st, k))
  \/ IsH(k) /\ Room(st) /\ Edge("hAsgRaw " \o S(k) \o " SVol 2 1 1 0 0 0 0 0 0 0 0 0 300", UserIn(DropRef(st, k), k))
  \/ IsH(k) /\ Edge("hAsgNull " \o S(k) \o " SVol", DropRef(st, k))
  \/ IsH(k) /\ Edge("hDetach " \o S(k) \o " SVol", DropRef(st, k))
  \/ IsH(k) /\ Edge("del " \o S(k), Drop(st, k))
  \/ \E j \in Ks : IsFree(k) /\ IsH(j) /\ Edge("hCopy " \o S(k) \o " SVol " \o S(j), SetSlot(st, k, "h", st.sl[j].o))
  \/ \E j \in Ks : IsH(k) /\ IsH(j) /\ Edge("hAsg " \o S(k) \o " SVol " \o S(j),
        IF st.sl[j].o = st.sl[k].o THEN st ELSE SetSlot(DropRef(st, k), k, "h", st.sl[j].o))
Spec == Init /\ [][Next]_st
\* ---- properties
Referenced(o) == \E k \in Ks : st.sl[k].kd = "h" /\ st.sl[k].o = o
StoreObjs == {o \in 1..Len(st.ob) : st.ob[o].owner = "store"}
KeptWhileReferenced == \A o \in StoreObjs : Referenced(o) => st.bf[st.ob[o].b].out
ReturnedWhenUnreferenced == \A b \in 1..Len(st.bf) : st.bf[b].pool =>
   (st.bf[b].out <=> \E o \in StoreObjs : st.ob[o].b = b /\ Referenced(o))
Exclusive == \A o, p \in StoreObjs : (o # p /\ Referenced(o) /\ Referenced(p)) => st.ob[o].b # st.ob[p].b
Counted == st.act = Cardinality({b \in 1..Len(st.bf) : st.bf[b].pool /\ st.bf[b].out}) /\ st.tot = Cardinality({b \in 1..Len(st.bf) : st.bf[b].pool})
UserNeverReturned == \A b \in 1..Len(st.bf) : ~st.bf[b].pool => st.bf[b].out
=============================================================================
