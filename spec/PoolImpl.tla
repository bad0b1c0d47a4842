------------------------------ MODULE PoolImpl ------------------------------
(* The pool's algorithm (size classes, padding, LIFO stacks per class) with the properties a user relies on.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes, MaxBufs
VARIABLES cls, caps, out, pad, act, tot, served
vars == <<cls, caps, out, pad, act, tot, served>>
\* cls: capacity -> stack of free buffers;  caps: buffer -> capacity;  out: buffers handed out;  served: buffer -> sizes it was handed out for
Init == cls = <<>> /\ caps = <<>> /\ out = {} /\ pad = 0 /\ act = 0 /\ tot = 0 /\ served = <<>>
Keys == DOMAIN cls
Lower(n) == {c \in Keys : c >= n /\ \A d \in Keys : d >= n => c <= d}
Ext(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
NewPad(r) == IF pad = 0 THEN r \div 10 ELSE pad
Get(r) == LET p == NewPad(r)  n == r + p  L == Lower(n)  c == IF L = {} THEN n ELSE CHOOSE x \in L : TRUE
              stk == IF L = {} THEN <<>> ELSE cls[c]
              settled == r >= 10 \/ pad # 0 IN
  /\ pad' = p
  /\ IF stk = <<>> THEN
        /\ tot < MaxBufs
        /\ caps' = Append(caps, c) /\ cls' = Ext(cls, c, <<>>) /\ tot' = tot + 1
        /\ out' = out \cup {tot + 1} /\ served' = Append(served, IF settled THEN {r} ELSE {})
     ELSE LET b == stk[Len(stk)] IN
        /\ cls' = [cls EXCEPT ![c] = SubSeq(@, 1, Len(@) - 1)] /\ out' = out \cup {b}
        /\ served' = IF settled THEN [served EXCEPT ![b] = @ \cup {r}] ELSE served
        /\ UNCHANGED <<caps, tot>>
  /\ act' = act + 1
Put(b) == /\ b \in out /\ out' = out \ {b} /\ cls' = [cls EXCEPT ![caps[b]] = Append(@, b)] /\ act' = act - 1
          /\ UNCHANGED <<caps, pad, tot, served>>
Next == (\E r \in Sizes : Get(r)) \/ (\E b \in out : Put(b))
Spec == Init /\ [][Next]_vars
Range(s) == {s[i] : i \in 1..Len(s)}
Counted == act = Cardinality(out) /\ tot = Len(caps)
BigEnough == \A b \in 1..Len(caps) : \A r \in served[b] : caps[b] >= r
\* every buffer is either out or on exactly one stack, once
Partition == \A b \in 1..Len(caps) : /\ (b \in out) # (\E c \in Keys : b \in Range(cls[c]))
                                     /\ \A c \in Keys : b \in Range(cls[c]) => caps[b] = c
                                     /\ \A c \in Keys : Cardinality({i \in 1..Len(cls[c]) : cls[c][i] = b}) <= 1
\* a request of a size some free buffer has served is met without fresh memory
Reuse == \A b \in 1..Len(caps) : \A r \in served[b] : (b \notin out) =>
            LET L == Lower(r + NewPad(r)) IN L # {} /\ \A c \in L : cls[c] # <<>>
=============================================================================
