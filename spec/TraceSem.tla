------------------------------ MODULE TraceSem -------------------------------
(* Recorded schedules of the real semaphore: completed waits never exceed the permits provided so far, and when    *)
(* nothing can move any more the only threads left are waits for which there is no permit.                        *)
EXTENDS TraceBase
VARIABLES l, skip, init, posts, waits, ops
vars == <<l, skip, init, posts, waits, ops>>
Init == l = 1 /\ skip = FALSE /\ init = 0 /\ posts = 0 /\ waits = 0 /\ ops = <<>>
Op(t) == IF t \in DOMAIN ops THEN ops[t] ELSE "-"
Set(t, v) == [x \in DOMAIN ops \cup {t} |-> IF x = t THEN v ELSE ops[x]]
Pos(n) == IF n > 0 THEN n ELSE 0
OK(ev) == CASE ev.e = "New" -> TRUE [] ev.e = "call" -> Op(ev.t) = "-"
            [] ev.e = "ret" -> Op(ev.t) = "p" \/ (Op(ev.t) = "w" /\ waits + 1 <= Pos(init + posts))
            [] ev.e \in {"quiet", "Stuck"} -> /\ \A i \in 1..Len(ev.b) : Op(ev.b[i]) = "w"
                                /\ Len(ev.b) > 0 => init + posts - waits <= 0
            [] ev.e = "End" -> TRUE [] OTHER -> FALSE
Exp(ev) == CASE ev.e = "ret" -> <<"no permit is available", "posts", posts, "completed waits", waits, "initial", init>>
             [] ev.e \in {"quiet", "Stuck"} -> <<"blocked only in wait without permits", "permits", init + posts - waits>> [] OTHER -> "a normal end"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE /\ posts' = 0 /\ waits' = 0 /\ ops' = <<>> /\ init' = 0
           ELSE IF skip THEN UNCHANGED <<skip, init, posts, waits, ops>>
           ELSE IF OK(ev) THEN
             /\ skip' = FALSE /\ init' = IF ev.e = "New" THEN ev.n ELSE init
             \* a post counts from the moment it is called: it may take effect any time before it returns
             /\ posts' = IF ev.e = "call" /\ ev.op = "p" THEN posts + 1 ELSE posts
             /\ waits' = IF ev.e = "ret" /\ Op(ev.t) = "w" THEN waits + 1 ELSE waits
             /\ ops' = CASE ev.e = "call" -> Set(ev.t, ev.op) [] ev.e = "ret" -> Set(ev.t, "-") [] OTHER -> ops
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE /\ UNCHANGED <<init, posts, waits, ops>>
Spec == Init /\ [][Next]_vars
=============================================================================
