---------------------------- MODULE ThreadAssign ----------------------------
(* One threaded assignment: the caller splits the destination box, schedules one task per part, and waits on a    *)
(* semaphore once per task; the pool's workers take tasks in order, write their cells one at a time and post.     *)
(* For every box up to MaxX, every requested number of parts and every interleaving: each cell is written exactly *)
(* once, all of them before the caller returns, and the caller does return.                                       *)
EXTENDS Geometry, FiniteSets
CONSTANTS MaxX, MaxParts, Workers
VARIABLES x, split, queue, loc, n, work, sem, waits, done, writes
vars == <<x, split, queue, loc, n, work, sem, waits, done, writes>>
\* the code's choice of a split and its order of parts
Find(e, k) == IF k <= e[3] THEN <<1,1,k>> ELSE IF k <= e[2] THEN <<1,k,1>> ELSE IF k <= e[1] THEN <<k,1,1>> ELSE <<1,1,1>>
Following(c, s) == IF c[3] < s[3]-1 THEN <<c[1], c[2], c[3]+1>> ELSE IF c[2] < s[2]-1 THEN <<c[1], c[2]+1, 0>> ELSE <<c[1]+1, 0, 0>>
CellsOf(e) == {<<i,j,k>> : i \in 0..(e[1]-1), j \in 0..(e[2]-1), k \in 0..(e[3]-1)}
Of(l) == LET w == Part([g |-> x, o |-> Zero3, x |-> x], split, l) IN {Add3(w.o, c) : c \in CellsOf(w.x)}
Init == /\ x \in {<<i,j,k>> : i \in 1..MaxX, j \in 1..MaxX, k \in 1..MaxX}
        /\ \E p \in 1..MaxParts : split = Find(x, p)
        /\ queue = <<>> /\ loc = Zero3 /\ n = 0 /\ work = [w \in 1..Workers |-> [on |-> FALSE, left |-> {}]]
        /\ sem = 0 /\ waits = 0 /\ done = FALSE /\ writes = [c \in CellsOf(x) |-> 0]
Max == Prod3(split)
Schedule == /\ n < Max /\ queue' = Append(queue, loc) /\ loc' = Following(loc, split) /\ n' = n + 1
            /\ UNCHANGED <<x, split, work, sem, waits, done, writes>>
Wait == /\ n = Max /\ waits < Max /\ sem > 0 /\ sem' = sem - 1 /\ waits' = waits + 1
        /\ UNCHANGED <<x, split, queue, loc, n, work, done, writes>>
Return == n = Max /\ waits = Max /\ ~done /\ done' = TRUE /\ UNCHANGED <<x, split, queue, loc, n, work, sem, waits, writes>>
Take(w) == /\ ~work[w].on /\ queue # <<>> /\ queue' = Tail(queue)
           /\ work' = [work EXCEPT ![w] = [on |-> TRUE, left |-> Of(Head(queue))]]
           /\ UNCHANGED <<x, split, loc, n, sem, waits, done, writes>>
\* the order of the cells inside a part does not matter to the result
Write(w) == /\ work[w].on /\ work[w].left # {}
            /\ LET c == CHOOSE q \in work[w].left : TRUE IN work' = [work EXCEPT ![w].left = @ \ {c}] /\ writes' = [writes EXCEPT ![c] = @ + 1]
            /\ UNCHANGED <<x, split, queue, loc, n, sem, waits, done>>
Post(w) == /\ work[w].on /\ work[w].left = {} /\ sem' = sem + 1 /\ work' = [work EXCEPT ![w].on = FALSE]
           /\ UNCHANGED <<x, split, queue, loc, n, waits, done, writes>>
Next == Schedule \/ Wait \/ Return \/ \E w \in 1..Workers : Take(w) \/ Write(w) \/ Post(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A c \in CellsOf(x) : writes[c] <= 1
AllBeforeReturn == done => \A c \in CellsOf(x) : writes[c] = 1
InBox == \A w \in 1..Workers : work[w].left \subseteq CellsOf(x)
Returns == <>done
=============================================================================
