----------------------------- MODULE TraceStore ------------------------------
(* Concurrent acquisition and release of pool memory.  Every call takes effect at one moment between call and      *)
(* return (Lin); a trace is accepted when such moments exist.  A buffer handed out is not handed out again before  *)
(* its release, is large enough, keeps its contents, and counts are those of the sequence of moments.              *)
EXTENDS TraceBase
VARIABLES c, l, ops, bf, own
vars == <<c, l, ops, bf, own>>
\* bf: pool -> buffer -> [cap, free, req]   own: slot -> <<pool, buffer>>
Starts == {i \in 1..Len(Trace) : Trace[i].e = "Begin"}
Last(i) == CHOOSE j \in i..Len(Trace) : Trace[j].c = Trace[i].c /\ (j = Len(Trace) \/ Trace[j+1].c # Trace[i].c)
Max(a, b) == IF a > b THEN a ELSE b
Init == c \in Starts /\ l = c + 1 /\ ops = <<>> /\ bf = [d |-> <<>>, m |-> <<>>] /\ own = <<>> /\ TLCSet(c, c)
Ev == Trace[l]
InCase == l <= Len(Trace) /\ Ev.c = Trace[c].c
Set(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]
Drop(f, t) == [x \in DOMAIN f \ {t} |-> f[x]]
RECURSIVE RetFrom(_,_)
RetFrom(t, j) == IF j > Len(Trace) \/ Trace[j].c # Trace[c].c THEN [b |-> 0, cap |-> 0]
                 ELSE IF Trace[j].e = "ret" /\ Trace[j].t = t THEN Trace[j] ELSE RetFrom(t, j + 1)
RetOf(t) == RetFrom(t, l)
Live(p) == {b \in DOMAIN bf[p] : ~bf[p][b].free}
Done(t, v) == ops' = [ops EXCEPT ![t].st = "d", ![t].v = v]
\* a call whose return is never recorded may also never take effect
Get(t) == LET o == ops[t]  p == o.p  r == RetOf(t)  b == r.b IN
  /\ o.op = "get" /\ b # 0 /\ r.cap >= o.n
  /\ IF b \in DOMAIN bf[p]
       THEN bf[p][b].free /\ bf' = [bf EXCEPT ![p] = Set(@, b, [cap |-> bf[p][b].cap, free |-> FALSE, req |-> bf[p][b].req \cup {o.n}])]
       ELSE /\ \A x \in DOMAIN bf[p] : ~(bf[p][x].free /\ o.n \in bf[p][x].req)
            /\ b \notin DOMAIN bf[IF p = "d" THEN "m" ELSE "d"]
            /\ bf' = [bf EXCEPT ![p] = Set(@, b, [cap |-> r.cap, free |-> FALSE, req |-> {o.n}])]
  /\ own' = Set(own, o.s, <<p, b>>) /\ Done(t, 0)
Put(t) == LET o == ops[t]  w == own[o.s] IN
  /\ o.op = "put" /\ bf' = [bf EXCEPT ![w[1]][w[2]].free = TRUE] /\ own' = Drop(own, o.s) /\ Done(t, 0)
Look(t) == LET o == ops[t] IN
  /\ o.op \in {"act", "tot"} /\ UNCHANGED <<bf, own>>
  /\ Done(t, CASE o.op = "act" -> Cardinality(Live(o.p)) [] OTHER -> Cardinality(DOMAIN bf[o.p]))
\* inspecting the contents of a buffer one owns needs no moment
Lin(t) == ops[t].st = "c" /\ ops[t].op # "use" /\ (Get(t) \/ Put(t) \/ Look(t)) /\ UNCHANGED <<c, l>>
Consume ==
  /\ InCase /\ l' = l + 1
  /\ LET ev == Ev IN
     CASE ev.e = "call" -> ops' = Set(ops, ev.t, [op |-> ev.op, s |-> ev.s, p |-> ev.p, n |-> ev.n, st |-> "c", v |-> 0]) /\ UNCHANGED <<c, bf, own>>
       [] ev.e = "ret" -> (ops[ev.t].st = "d" \/ ops[ev.t].op = "use") /\ ~ev.dmg /\ ~ev.thr /\ ev.v = ops[ev.t].v /\ ops' = Drop(ops, ev.t) /\ UNCHANGED <<c, bf, own>>
       \* nothing in this interface ever waits for another thread's later action
       [] ev.e = "quiet" -> /\ ev.b = <<>> /\ ev.ad = Cardinality(Live("d")) /\ ev.td = Cardinality(DOMAIN bf.d)
                            /\ ev.am = Cardinality(Live("m")) /\ ev.tm = Cardinality(DOMAIN bf.m) /\ UNCHANGED <<c, ops, bf, own>>
       [] ev.e = "End" -> UNCHANGED <<c, ops, bf, own>>
       [] OTHER -> FALSE
  /\ TLCSet(c, Max(TLCGet(c), l))
Next == Consume \/ \E t \in DOMAIN ops : Lin(t)
Spec == Init /\ [][Next]_vars
Verdict == \A s \in Starts : LET m == TLCGet(s) IN m = Last(s) \/ Reject(m + 1, "the specification has no behaviour which continues with this event")
=============================================================================
