----------------------------- MODULE TracePool -------------------------------
(* What a user can rely on from the thread pool, as a transition system over the queue of pending tasks, the tasks  *)
(* taken by workers, the requested number of workers and the limit of active ones.  Calls take effect at some      *)
(* moment between call and return (Lin), a worker takes a task at some moment before it starts it (Take): a trace   *)
(* is accepted when such moments exist.  P selects the constraints of one property.                               *)
EXTENDS TraceBase
CONSTANT P
VARIABLES c, l, kind, q, taken, run, ran, tgt, lim, wc, shrunk, ops, at, opened
vars == <<c, l, kind, q, taken, run, ran, tgt, lim, wc, shrunk, ops, at, opened>>
Ends == {"End", "Stuck", "Crash", "Uncaught"}
Starts == {i \in 1..Len(Trace) : Trace[i].e = "Begin"}
Last(i) == CHOOSE j \in i..Len(Trace) : Trace[j].c = Trace[i].c /\ (j = Len(Trace) \/ Trace[j+1].c # Trace[i].c)
Chk(p) == P = p
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Init == /\ c \in Starts /\ l = c + 1 /\ kind = "none" /\ q = <<>> /\ taken = {} /\ run = {} /\ ran = {} /\ tgt = 0 /\ lim = 0 /\ wc = 0 /\ shrunk = FALSE /\ ops = <<>> /\ at = {} /\ opened = {}
        /\ TLCSet(c, c)
Ev == Trace[l]
InCase == l <= Len(Trace) /\ Ev.c = Trace[c].c
Set(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
RunsLater(k) == \E i \in l..Min(Len(Trace), l + 400) : Trace[i].c = Trace[c].c /\ Trace[i].e = "run" /\ Trace[i].k = k
Busy == Cardinality(run) + Cardinality(taken)
\* tasks blocked at a closed gate
Remove(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Top(i) == CASE kind = "fifo" -> i = 1 [] kind = "lifo" -> i = Len(q) [] OTHER -> \A j \in 1..Len(q) : q[j].p <= q[i].p
(* ------------------------------------------------ hidden steps *)
Take == \E i \in 1..Len(q) :
          /\ (Chk("P24") => Top(i) /\ Busy < wc) /\ RunsLater(q[i].k)   \* only a free worker takes a task
          /\ ((Chk("P25") \/ Chk("P28")) => (Busy < lim /\ Busy < wc))
          /\ taken' = taken \cup {q[i].k} /\ q' = Remove(q, i)
          /\ UNCHANGED <<c, l, kind, run, ran, tgt, lim, wc, shrunk, ops, at, opened>>
Done(t, r) == ops' = [ops EXCEPT ![t].st = "d", ![t].r = r]
Lin(t) == LET o == ops[t] IN
  /\ o.st = "c" /\ UNCHANGED <<c, l, kind, taken, run, ran, at, opened>>
  /\ CASE o.op = "sched" -> q' = Append(q, [k |-> o.k, p |-> o.a]) /\ Done(t, {1}) /\ UNCHANGED <<tgt, lim, wc, shrunk>>
       [] o.op = "clear" -> q' = <<>> /\ Done(t, {1}) /\ UNCHANGED <<tgt, lim, wc, shrunk>>
       [] o.op = "resize" -> tgt' = o.k /\ wc' = wc + Max(0, o.k - tgt) /\ shrunk' = (shrunk \/ o.k < tgt) /\ Done(t, {1}) /\ UNCHANGED <<q, lim>>
       [] o.op = "limit" -> \E x \in tgt..wc : lim' = Min(o.k, x) /\ Done(t, {1}) /\ UNCHANGED <<q, tgt, wc, shrunk>>
       [] o.op \in {"wait", "destroy"} -> (Chk("P26") => Len(q) + Busy <= o.k) /\ Done(t, {1}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "twait" -> (IF Len(q) + Busy <= o.k \/ ~Chk("P26") THEN Done(t, {0, 1}) ELSE Done(t, {0})) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "pending" -> Done(t, {Len(q)}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "empty" -> Done(t, {IF q = <<>> THEN 1 ELSE 0}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       \* a worker which has not yet settled down to wait counts as active
       [] o.op = "active" -> Done(t, Cardinality(run)..wc) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       \* a resize in progress creates its workers one after another
       [] o.op = "size" -> LET rs == {x \in DOMAIN ops : ops[x].op = "resize"} IN
                           (IF rs = {} THEN Done(t, tgt..wc) ELSE Done(t, 0..Max(wc, CHOOSE m \in {ops[x].k : x \in rs} : \A x \in rs : ops[x].k <= m))) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "max" -> Done(t, {Min(lim, tgt)}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       \* the process-wide pools: requests are one after another, at least 1, at most the capacity active
       [] o.op = "cap" -> LET k == Max(1, o.k) IN tgt' = k /\ wc' = wc + Max(0, k - tgt) /\ shrunk' = (shrunk \/ k < tgt) /\ Done(t, {k}) /\ UNCHANGED <<q, lim>>
       [] o.op = "act" -> LET k == Max(1, o.k) IN \E x \in tgt..wc : lim' = Min(k, x) /\ Done(t, {Min(k, tgt)}) /\ UNCHANGED <<q, tgt, wc, shrunk>>
       [] o.op = "getcap" -> Done(t, tgt..wc) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "getact" -> Done(t, {Min(lim, tgt)}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
       [] o.op = "open" -> Done(t, {1}) /\ UNCHANGED <<q, tgt, lim, wc, shrunk>>
(* ------------------------------------------------ recorded steps *)
Same == UNCHANGED <<c, kind, q, taken, run, ran, tgt, lim, wc, shrunk, ops, at, opened>>
RetOK(ev, o) == CASE ev.op \in {"pending", "empty", "active"} -> Chk("P23") => ev.r \in o.r
                  [] ev.op \in {"size", "max"} -> Chk("P25") => ev.r \in o.r
                  [] ev.op = "sched" -> ev.r \in o.r
                  [] ev.op = "destroy" -> (Chk("P26") /\ ~shrunk) => ev.w = 0
                  [] OTHER -> ev.r \in o.r
Free == Min(lim, tgt)
AtGate(k) == \E x \in at : x[1] = k /\ x[2] \notin opened
StuckOK(ev) ==
  /\ Chk("P23") => (taken = {} /\ (Cardinality(run) < Free => q = <<>>) /\ \A k \in run : AtGate(k))
  /\ Chk("P25") => (Cardinality(run) < Free => q = <<>>)
  /\ Chk("P28") => (taken = {} /\ (Cardinality(run) < Free => q = <<>>) /\ \A i \in 1..Len(ev.b) : LET t == ev.b[i] IN t \in DOMAIN ops /\ ops[t].op = "wait")
  /\ Chk("P26") => \A i \in 1..Len(ev.b) : LET t == ev.b[i] IN t \in DOMAIN ops /\ ops[t].op \in {"wait", "destroy"} /\ Len(q) + Cardinality(run) > ops[t].k
QuietOK(ev) == /\ StuckOK(ev)
               \* workers which run a task end afterwards
               /\ (Chk("P25") \/ Chk("P28")) => ev.w = (IF kind = "dead" THEN 0 ELSE Max(tgt, Cardinality(run)))
               /\ (Chk("P26") /\ kind = "dead") => ev.w = 0
Consume ==
  /\ InCase /\ l' = l + 1
  /\ LET ev == Ev IN
     CASE ev.e = "Pool" -> kind' = ev.kind /\ tgt' = ev.n /\ lim' = ev.n /\ wc' = ev.n /\ UNCHANGED <<c, q, taken, run, ran, shrunk, ops, at, opened>>
       [] ev.e = "call" -> ops' = Set(ops, ev.t, [op |-> ev.op, k |-> ev.k, a |-> ev.a, st |-> "c", r |-> {}])
                           /\ opened' = (IF ev.op = "open" THEN opened \cup {ev.k} ELSE opened) /\ UNCHANGED <<c, kind, q, taken, run, ran, tgt, lim, wc, shrunk, at>>
       [] ev.e = "ret" -> ev.t \in DOMAIN ops /\ ops[ev.t].st = "d" /\ RetOK(ev, ops[ev.t]) /\ ops' = Drop(ops, ev.t)
                          /\ kind' = (IF ev.op = "destroy" THEN "dead" ELSE kind)
                          /\ UNCHANGED <<c, q, taken, run, ran, tgt, lim, wc, shrunk, at, opened>>
       [] ev.e = "run" -> ev.k \in taken /\ ev.k \notin ran /\ taken' = taken \ {ev.k} /\ run' = run \cup {ev.k} /\ ran' = ran \cup {ev.k} /\ UNCHANGED <<c, kind, q, tgt, lim, wc, shrunk, ops, at, opened>>
       [] ev.e = "at" -> ev.k \in run /\ at' = at \cup {<<ev.k, ev.g>>} /\ UNCHANGED <<c, kind, q, taken, run, ran, tgt, lim, wc, shrunk, ops, opened>>
       [] ev.e = "fin" -> ev.k \in run /\ run' = run \ {ev.k} /\ UNCHANGED <<c, kind, q, taken, ran, tgt, lim, wc, shrunk, ops, at, opened>>
       [] ev.e = "die" -> ev.k \in run /\ run' = run \ {ev.k} /\ wc' = wc + 1 /\ shrunk' = TRUE /\ UNCHANGED <<c, kind, q, taken, ran, tgt, lim, ops, at, opened>>
       [] ev.e = "quiet" -> QuietOK(ev) /\ wc' = ev.w /\ UNCHANGED <<c, kind, q, taken, run, ran, tgt, lim, shrunk, ops, at, opened>>
       [] ev.e = "End" -> Same
       [] ev.e = "Stuck" -> StuckOK(ev) /\ Same
       [] OTHER -> FALSE
  /\ TLCSet(c, Max(TLCGet(c), l))
Next == Consume \/ Take \/ \E t \in DOMAIN ops : Lin(t)
Spec == Init /\ [][Next]_vars
Verdict == \A s \in Starts : LET m == TLCGet(s) IN m = Last(s) \/ Reject(m + 1, "the specification has no behaviour which continues with this event")
=============================================================================
