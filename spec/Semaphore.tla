----------------------------- MODULE Semaphore -----------------------------
(* A counting semaphore over a mutex and a condition variable, step for step as in Semaphore.h, with spurious      *)
(* wake-ups, checked against what a user relies on: no permit invented, none lost.                                *)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, Posters, Initial, WaitsEach, PostsEach, Spurious
Procs == Waiters \cup Posters
VARIABLES val, owner, pc, left, asleep, done, posted
vars == <<val, owner, pc, left, asleep, done, posted>>
Init == /\ val = Initial /\ owner = "none" /\ asleep = {} /\ done = 0 /\ posted = 0
        /\ pc = [p \in Procs |-> "idle"] /\ left = [p \in Procs |-> IF p \in Waiters THEN WaitsEach ELSE PostsEach]
Call(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ pc' = [pc EXCEPT ![p] = "lock"] /\ UNCHANGED <<val, owner, left, asleep, done, posted>>
Lock(p) == /\ pc[p] = "lock" /\ owner = "none" /\ owner' = p /\ pc' = [pc EXCEPT ![p] = IF p \in Waiters THEN "test" ELSE "inc"] /\ UNCHANGED <<val, left, asleep, done, posted>>
Test(p) == /\ pc[p] = "test"
           /\ IF val <= 0 THEN pc' = [pc EXCEPT ![p] = "asleep"] /\ owner' = "none" /\ asleep' = asleep \cup {p} /\ UNCHANGED <<val, done, left>>
              ELSE val' = val - 1 /\ done' = done + 1 /\ owner' = "none" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED asleep
           /\ UNCHANGED posted
Inc(p) == /\ pc[p] = "inc" /\ val' = val + 1 /\ posted' = posted + 1 /\ pc' = [pc EXCEPT ![p] = "notify"] /\ UNCHANGED <<owner, left, asleep, done>>
Notify(p) == /\ pc[p] = "notify" /\ owner' = "none" /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ IF asleep = {} THEN UNCHANGED asleep /\ pc' = [pc EXCEPT ![p] = "idle"]
                ELSE \E w \in asleep : asleep' = asleep \ {w} /\ pc' = [pc EXCEPT ![p] = "idle", ![w] = "lock"]
             /\ UNCHANGED <<val, done, posted>>
Wake(p) == /\ Spurious /\ p \in asleep /\ asleep' = asleep \ {p} /\ pc' = [pc EXCEPT ![p] = "lock"] /\ UNCHANGED <<val, owner, left, done, posted>>
Step(p) == Call(p) \/ Lock(p) \/ Test(p) \/ Inc(p) \/ Notify(p)
Next == \E p \in Procs : Step(p) \/ Wake(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ SF_vars(Lock(p))
\* no permit invented
NeverMore == done <= (IF Initial + posted > 0 THEN Initial + posted ELSE 0)
Account == val = Initial + posted - done
\* a thread sleeps for good only while no permit is available
NoLost == (\A p \in Procs : pc[p] = "asleep" \/ (pc[p] = "idle" /\ left[p] = 0)) => (asleep # {} => val <= 0)
\* with enough posts every waiter returns
Enough == Initial + Cardinality(Posters)*PostsEach >= Cardinality(Waiters)*WaitsEach
AllReturn == Enough => <>(\A p \in Procs : pc[p] = "idle" /\ left[p] = 0)
Sym == {}
=============================================================================
