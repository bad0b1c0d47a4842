------------------------------ MODULE PoolCore -------------------------------
(* The thread pool's own algorithm: counters, the two condition variables and the workers' loop, one action per     *)
(* critical section of pool_core.  Clients schedule tasks, change the number of workers and the limit of active     *)
(* ones, drop pending tasks, wait, and finally destroy the pool.  Flaw selects a defect found in the original code  *)
(* (or "none"): with any of them a property below fails, which shows that the properties are not vacuous.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes, Limits, NTasks, NOps, MaxW, Mayfail, Flaw, Resizers, Hold
VARIABLES q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, wi, wpc, budget, client
vars == <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, wi, wpc, budget, client>>
W == 1..MaxW   Waiters == {"any", "one"}
\* pc: none | top | loop | wait | run | leave | gone ; wt: workers waiting for work ; wi: clients waiting for idleness
\* wpc: what a waiting client does: idle | check | sleep | done
Live == {w \in W : pc[w] \notin {"none", "gone"}}
Fresh == {w \in W : pc[w] = "none"}
Create(s) == [w \in W |-> IF w \in s THEN "top" ELSE pc[w]]
Init == /\ q = <<>> /\ born = 0 /\ ended = {} /\ cleared = {} /\ cur = [w \in W |-> 0] /\ lc = 0 /\ wt = {} /\ wi = {}
        /\ \E n \in Sizes : /\ n > 0 /\ tgt = n /\ wc = n /\ ac = n /\ lim = n /\ pc = [w \in W |-> IF w <= n THEN "top" ELSE "none"]
        /\ wpc = [v \in Waiters |-> "idle"] /\ budget = NOps /\ client = "use"
Threshold(v) == IF v = "any" THEN 0 ELSE 1
Idle(v) == IF Threshold(v) = 0 THEN ac = 0 /\ q = <<>> ELSE ac + Len(q) <= Threshold(v)
NotifyAllIdle == wi' = {}
NotifyAllTask == wt' = {}
(* ------------------------------------------------------------ clients *)
Schedule == /\ client = "use" /\ born < NTasks /\ born' = born + 1 /\ q' = Append(q, born + 1)
            /\ (IF wt = {} THEN wt' = wt ELSE \E w \in wt : wt' = wt \ {w})
            /\ UNCHANGED <<ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wi, wpc, budget, client>>
DoResize(n) == LET have == IF Flaw = "leaving" THEN wc ELSE wc - lc IN
            /\ tgt' = n
            /\ IF have <= n THEN \E s \in SUBSET Fresh : Cardinality(s) = n - have /\ (\A w \in s, x \in Fresh \ s : w < x) /\ pc' = Create(s) /\ wc' = wc + n - have /\ ac' = ac + n - have /\ UNCHANGED wt
               ELSE NotifyAllTask /\ UNCHANGED <<pc, wc, ac>>
Resize == /\ client = "use" /\ budget > 0 /\ budget' = budget - 1 /\ \E n \in Resizers : DoResize(n)
          /\ UNCHANGED <<q, born, ended, cleared, cur, lc, lim, wi, wpc, client>>
Limit == /\ client = "use" /\ budget > 0 /\ budget' = budget - 1 /\ \E n \in Limits : lim' = (IF n < wc THEN n ELSE wc)
         /\ (IF Flaw = "limit" THEN UNCHANGED wt ELSE NotifyAllTask)
         /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, wi, wpc, client>>
Clear == /\ client = "use" /\ budget > 0 /\ budget' = budget - 1 /\ cleared' = cleared \cup {q[i] : i \in 1..Len(q)} /\ q' = <<>>
         /\ (IF Flaw = "clear" THEN UNCHANGED wi ELSE NotifyAllIdle)
         /\ UNCHANGED <<born, ended, pc, cur, wc, ac, lc, tgt, lim, wt, wpc, client>>
StartWait(v) == wpc[v] = "idle" /\ client = "use" /\ wpc' = [wpc EXCEPT ![v] = "check"] /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, wi, budget, client>>
CheckWait(v) == /\ wpc[v] = "check" \/ (wpc[v] = "sleep" /\ v \notin wi)
                /\ (IF Idle(v) THEN wpc' = [wpc EXCEPT ![v] = "done"] /\ UNCHANGED wi ELSE wpc' = [wpc EXCEPT ![v] = "sleep"] /\ wi' = wi \cup {v})
                /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, budget, client>>
\* destroy: wait until idle, ask all workers to leave, wait until they left
StartDestroy == client = "use" /\ client' = "drain" /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, wi, wpc, budget>>
Drain == /\ client = "drain" /\ ("d" \notin wi)
         /\ (IF ac = 0 /\ q = <<>> THEN client' = "term" /\ tgt' = 0 /\ NotifyAllTask /\ UNCHANGED wi ELSE wi' = wi \cup {"d"} /\ UNCHANGED <<client, tgt, wt>>)
         /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, lim, wpc, budget>>
Term == /\ client = "term" /\ "d" \notin wi
        /\ (IF wc = 0 THEN client' = "dead" /\ UNCHANGED wi ELSE wi' = wi \cup {"d"} /\ UNCHANGED client)
        /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wt, wpc, budget>>
(* ------------------------------------------------------------ workers *)
Set(w, p) == pc' = [pc EXCEPT ![w] = p]
Excess == (IF Flaw = "leaving" THEN wc ELSE wc - lc) > tgt
Leave(w) == Set(w, "leave") /\ lc' = lc + 1
Keep == UNCHANGED <<born, ended, cleared, lim, wpc, budget, client>>
\* the loop of execute_task from its condition on, a being the number of active workers at that time
Loop(w, a) ==
  IF q = <<>> \/ a > lim THEN
     IF Excess THEN Leave(w) /\ ac' = a /\ UNCHANGED <<q, cur, wt, wi>>
     ELSE Set(w, "wait") /\ ac' = a - 1 /\ wt' = wt \cup {w} /\ NotifyAllIdle /\ UNCHANGED <<q, cur, lc>>
  ELSE /\ Set(w, "run") /\ cur' = [cur EXCEPT ![w] = Head(q)] /\ q' = Tail(q) /\ ac' = a
       /\ (IF Flaw = "taken" THEN UNCHANGED wi ELSE NotifyAllIdle) /\ UNCHANGED <<lc, wt>>
Fetch(w) == /\ pc[w] = "top" /\ (IF Excess THEN Leave(w) /\ UNCHANGED <<q, ac, cur, wt, wi>> ELSE Loop(w, ac))
            /\ UNCHANGED <<wc, tgt>> /\ Keep
Wake(w) == pc[w] = "wait" /\ w \notin wt /\ Loop(w, ac + 1) /\ UNCHANGED <<wc, tgt>> /\ Keep
Spurious(w) == pc[w] = "wait" /\ w \in wt /\ wt' = wt \ {w} /\ UNCHANGED <<q, born, ended, cleared, pc, cur, wc, ac, lc, tgt, lim, wi, wpc, budget, client>>
\* a held task ends only after somebody who waits for "at most one task" returned
Held(k) == k \in Hold /\ wpc["one"] # "done"
Finish(w) == /\ pc[w] = "run" /\ ~Held(cur[w]) /\ ended' = ended \cup {cur[w]} /\ cur' = [cur EXCEPT ![w] = 0] /\ Set(w, "top")
             /\ UNCHANGED <<q, born, cleared, wc, ac, lc, tgt, lim, wt, wi, wpc, budget, client>>
Destructed(w) == /\ pc[w] = "leave" /\ Set(w, "gone") /\ lc' = lc - 1 /\ wc' = wc - 1 /\ ac' = ac - 1
                 /\ NotifyAllIdle /\ (IF Flaw = "exit" THEN UNCHANGED wt ELSE NotifyAllTask) /\ UNCHANGED <<q, cur, tgt>> /\ Keep
\* the task throws: the worker dies and is replaced (by resize(wc+1)) unless the pool is being destroyed
Die(w) == /\ Mayfail /\ pc[w] = "run" /\ Fresh # {} /\ ended' = ended \cup {cur[w]} /\ cur' = [cur EXCEPT ![w] = 0] /\ NotifyAllIdle /\ NotifyAllTask
          /\ (IF client = "term" THEN pc' = [pc EXCEPT ![w] = "gone"] /\ wc' = wc - 1 /\ ac' = ac - 1 /\ UNCHANGED tgt
              ELSE LET have == wc - 1 - lc  add == wc - have IN
                   /\ tgt' = wc
                   /\ \E s \in SUBSET Fresh : Cardinality(s) = add /\ (\A x \in s, y \in Fresh \ s : x < y) /\ pc' = [[x \in W |-> IF x \in s THEN "top" ELSE pc[x]] EXCEPT ![w] = "gone"]
                                              /\ wc' = wc - 1 + add /\ ac' = ac - 1 + add)
          /\ UNCHANGED <<q, born, cleared, lc, lim, wpc, budget, client>>
Worker(w) == Fetch(w) \/ Wake(w) \/ Finish(w) \/ Destructed(w) \/ Die(w)
Next == Schedule \/ Resize \/ Limit \/ Clear \/ StartDestroy \/ Drain \/ Term \/ (\E v \in Waiters : StartWait(v) \/ CheckWait(v)) \/ (\E w \in W : Worker(w) \/ Spurious(w))
Fair == (\A w \in W : WF_vars(Worker(w))) /\ (\A v \in Waiters : WF_vars(CheckWait(v))) /\ WF_vars(Drain) /\ WF_vars(Term)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
(* ------------------------------------------------------------ properties *)
Running == {w \in W : pc[w] = "run"}
Pending == {q[i] : i \in 1..Len(q)}
Counters == wc = Cardinality(Live) /\ ac = Cardinality({w \in Live : pc[w] # "wait"}) /\ lc = Cardinality({w \in Live : pc[w] = "leave"})
\* a task is pending, running, done or dropped: exactly one of them
Once == /\ \A k \in 1..born : Cardinality({i \in 1..Len(q) : q[i] = k}) + Cardinality({w \in W : cur[w] = k}) + (IF k \in ended THEN 1 ELSE 0) + (IF k \in cleared THEN 1 ELSE 0) = 1
Ordered == \A i \in 1..Len(q) : \A j \in 1..Len(q) : i < j => q[i] < q[j]
InOrder == [][\A w \in W : (cur'[w] # cur[w] /\ cur'[w] # 0) => \A k \in Pending : cur'[w] <= k]_vars
\* no worker starts a task while as many as the limit run one (workers that rest or leave do not count as running)
Limited == [][\A w \in W : (pc[w] # "run" /\ pc'[w] = "run") => Cardinality(Running) < lim /\ Cardinality(Running) < wc]_vars
WaitSound == [][\A v \in Waiters : (wpc[v] # "done" /\ wpc'[v] = "done") => Cardinality(Running) + Len(q) <= Threshold(v)]_vars
DeadSound == client = "dead" => Live = {} /\ (tgt = 0) /\ (\A k \in 1..born : k \in ended \cup cleared)
\* nothing can happen any more by itself: then no task waits while a worker may take it, and nobody waits for idleness that is reached
Free == IF lim < tgt THEN lim ELSE tgt
QuietOK == (/\ \A w \in W : pc[w] \in {"none", "gone"} \/ (pc[w] = "wait" /\ w \in wt) \/ (pc[w] = "run" /\ Held(cur[w]))
            /\ wi \cap Waiters = {v \in Waiters : wpc[v] = "sleep"} /\ (client \in {"drain", "term"} => "d" \in wi) /\ (\A v \in Waiters : wpc[v] # "check"))
           => /\ (q # <<>> => Cardinality(Running) >= Free) /\ (client \in {"drain", "term"} => q # <<>> \/ Running # {})
              /\ wc = (IF Cardinality(Running) > tgt THEN Cardinality(Running) ELSE tgt) /\ lc = 0
              /\ \A v \in Waiters : wpc[v] = "sleep" => Cardinality(Running) + Len(q) > Threshold(v)
\* with fairness: every task is done or dropped, every wait ends, a pool being destroyed ends (when workers may run)
CanRun == tgt > 0 /\ lim > 0
TasksEnd == \A k \in 1..NTasks : (born >= k) ~> (k \in ended \cup cleared \/ ~CanRun)
WaitEnds == \A v \in Waiters : (wpc[v] = "check") ~> (wpc[v] = "done" \/ ~CanRun)
DestroyEnds == (client = "drain") ~> (client = "dead" \/ ~CanRun)
Settles == []<>(wc = tgt)
=============================================================================
