------------------------------- MODULE MCOpDB -------------------------------
(* Every history of registrations and emptyings up to a length (printed, so that each is replayed into the real   *)
(* database), together with a model of the implementation (a list of per-type stores with id counters) that must  *)
(* refine the abstract database.                                                                                   *)
EXTENDS OpDB, TLC
CONSTANTS Depth
VARIABLES db, impl, hist
vars == <<db, impl, hist>>
\* implementation: sequence of stores [t, map, ctr]; a store is created at the first registration of its type
Find(t) == {i \in 1..Len(impl) : impl[i].t = t}
IReg(t) == IF Find(t) = {} THEN Append(impl, [t |-> t, m |-> <<db.n + 1>>, c |-> 1])
           ELSE LET i == CHOOSE x \in Find(t) : TRUE IN [impl EXCEPT ![i].m = Append(@, db.n + 1), ![i].c = @ + 1]
IGet(t, id) == IF Find(t) = {} THEN 0 ELSE LET s == impl[CHOOSE x \in Find(t) : TRUE] IN
               IF id = -1 THEN (IF Len(s.m) > 1 THEN 0 ELSE s.m[1]) ELSE IF id \in DOMAIN s.m THEN s.m[id] ELSE 0
Init == db = DB0 /\ impl = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\
        \/ \E t \in Types : db' = Register(db, t) /\ impl' = IReg(t) /\ hist' = Append(hist, t)
        \/ db' = Empty(db) /\ impl' = <<>> /\ hist' = Append(hist, "E")
Spec == Init /\ [][Next]_vars
Refines == \A t \in Types, id \in -1..(Depth+1) : Get(db, t, id) = IGet(t, id)
OneStore == \A t \in Types : Cardinality(Find(t)) <= 1
\* identifiers are never reused while the database is not emptied, objects are owned by one entry or destroyed
Owned == /\ \A t, u \in Types : \A i \in 1..Len(db.st[t]) : \A j \in 1..Len(db.st[u]) : (db.st[t][i] = db.st[u][j]) => (t = u /\ i = j)
         /\ \A t \in Types : \A i \in 1..Len(db.st[t]) : db.st[t][i] \notin db.dead
         /\ \A o \in 1..db.n : o \in db.dead \/ \E t \in Types : \E i \in 1..Len(db.st[t]) : db.st[t][i] = o
Emit == Len(hist) = Depth => PrintT("HIST " \o ToString(hist))
=============================================================================
