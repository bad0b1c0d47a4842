-------------------------------- MODULE OpDB --------------------------------
(* The operator database: typed registrations with identifiers.  Abstractly, a function from type to the sequence *)
(* of objects registered since the database was last emptied (the identifier is the position), plus the set of    *)
(* objects that have been destroyed.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Types
DB0 == [st |-> [t \in Types |-> <<>>], n |-> 0, dead |-> {}]
\* registering takes ownership of object number n+1
Register(db, t) == [db EXCEPT !.st[t] = Append(@, db.n + 1), !.n = @ + 1]
RegId(db, t)    == Len(db.st[t]) + 1
Empty(db)       == [db EXCEPT !.st = [t \in Types |-> <<>>], !.dead = 1..db.n]
\* result of a retrieval: an object, or 0 for an exception
Get(db, t, id)  == IF id = -1 THEN (IF Len(db.st[t]) = 1 THEN db.st[t][1] ELSE 0)
                   ELSE IF id \in 1..Len(db.st[t]) THEN db.st[t][id] ELSE 0
=============================================================================
