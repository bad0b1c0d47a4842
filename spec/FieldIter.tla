----------------------------- MODULE FieldIter -----------------------------
(* Random-access iteration over a window.  pos is the abstract position; (cur, cnt, xi, yi, zi) is the           *)
(* implementation-shaped state: a running memory position, a counter and the three indices.                      *)
EXTENDS Geometry
CONSTANTS N, MaxJump
VARIABLES w, pos, cur, cnt, ix
vars == <<w, pos, cur, cnt, ix>>
yStep == w.g[1] - w.x[1]
zStep == (w.g[2] - w.x[2]) * w.g[1]
xy    == w.x[1] * w.x[2]
Start == Flat(w.g, w.o)
Windows == {v \in [g : (1..N) \X (1..N) \X (1..2), o : (0..(N-1)) \X (0..(N-1)) \X (0..1), x : (1..N) \X (1..N) \X (1..2)] : WindowOK(v)}
Init == w \in Windows /\ pos = 0 /\ cur = Start /\ cnt = 0 /\ ix = Zero3
Inc == /\ pos < NPts(w) /\ pos' = pos + 1 /\ cnt' = cnt + 1 /\ UNCHANGED w
       /\ LET wrapx == ix[1] + 1 = w.x[1]  wrapy == wrapx /\ ix[2] + 1 = w.x[2]
          IN /\ cur' = cur + 1 + (IF wrapx THEN yStep ELSE 0) + (IF wrapy THEN zStep ELSE 0)
             /\ ix' = <<IF wrapx THEN 0 ELSE ix[1]+1, IF wrapy THEN 0 ELSE IF wrapx THEN ix[2]+1 ELSE ix[2], IF wrapy THEN ix[3]+1 ELSE ix[3]>>
Dec == /\ pos > 0 /\ pos' = pos - 1 /\ cnt' = cnt - 1 /\ UNCHANGED w
       /\ LET wrapx == ix[1] = 0  wrapy == wrapx /\ ix[2] = 0
          IN /\ cur' = cur - 1 - (IF wrapx THEN yStep ELSE 0) - (IF wrapy THEN zStep ELSE 0)
             /\ ix' = <<IF wrapx THEN w.x[1]-1 ELSE ix[1]-1, IF wrapy THEN w.x[2]-1 ELSE IF wrapx THEN ix[2]-1 ELSE ix[2], IF wrapy THEN ix[3]-1 ELSE ix[3]>>
Jump(n) == /\ pos + n \in 0..NPts(w) /\ pos' = pos + n /\ cnt' = cnt + n /\ UNCHANGED w
           /\ cur' = cur + n + yStep * (((cnt+n) \div w.x[1]) - (cnt \div w.x[1])) + zStep * (((cnt+n) \div xy) - (cnt \div xy))
           /\ ix' = <<(cnt+n) % w.x[1], ((cnt+n) % xy) \div w.x[1], (cnt+n) \div xy>>
Next == Inc \/ Dec \/ \E n \in (0-MaxJump)..MaxJump : Jump(n)
Spec == Init /\ [][Next]_vars
\* the implementation state is a function of the abstract position: every path to a position agrees
Refines == /\ cnt = pos
           /\ ix = <<pos % w.x[1], (pos \div w.x[1]) % w.x[2], pos \div xy>>
           /\ (pos < NPts(w) => cur = MemAt(w, pos) /\ ix = LocalAt(w, pos))
           /\ (pos = NPts(w) => cur = Flat(w.g, Add3(w.o, <<0,0,w.x[3]>>)))
\* positions are ordered as memory
Ordered == pos < NPts(w) => cur < Flat(w.g, Add3(w.o, <<0,0,w.x[3]>>))
=============================================================================
