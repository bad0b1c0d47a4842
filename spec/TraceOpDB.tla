------------------------------ MODULE TraceOpDB ------------------------------
EXTENDS TraceBase, OpDB
VARIABLES l, skip, db
vars == <<l, skip, db>>
Init == l = 1 /\ skip = FALSE /\ db = DB0
After(ev) == CASE ev.e = "Reg" -> Register(db, ev.t) [] ev.e = "Empty" -> Empty(db) [] ev.e = "Gone" -> Empty(db)
IdOK(ev) == ev.e = "Reg" => ev.id = RegId(db, ev.t)
\* the snapshot: q = retrievals [t, id, object or 0]; dead = objects destroyed so far, each exactly once
SnapOK(ev, d) == /\ \A i \in 1..Len(ev.q) : ev.q[i].r = Get(d, ev.q[i].t, ev.q[i].id)
                 /\ \A i, j \in 1..Len(ev.dead) : ev.dead[i] = ev.dead[j] => i = j
                 /\ {ev.dead[i] : i \in 1..Len(ev.dead)} = d.dead
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE /\ db' = DB0
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED <<skip, db>>
           ELSE IF ev.e \in {"Reg", "Empty", "Gone"} /\ IdOK(ev) /\ SnapOK(ev, After(ev)) THEN db' = After(ev) /\ UNCHANGED skip
           ELSE /\ Reject(l, IF ev.e \in {"Reg", "Empty", "Gone"} THEN After(ev) ELSE [st |-> "a normal end"]) /\ skip' = TRUE /\ UNCHANGED db
Spec == Init /\ [][Next]_vars
=============================================================================
