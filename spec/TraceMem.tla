------------------------------ MODULE TraceMem ------------------------------
(* Recorded calls on pool, store, handles, fields and masks against the storage machine.                         *)
EXTENDS TraceBase, Fields
VARIABLES l, skip, st, pl, mk
vars == <<l, skip, st, pl, mk>>
\* pl: the plain-pool machine.  bufs known, out = slot -> buffer, pad = whether the padding is settled
Pl0 == [bf |-> <<>>, out |-> <<>>, tot |-> 0, act |-> 0, pad |-> FALSE]
Init == l = 1 /\ skip = FALSE /\ st = St0 /\ pl = Pl0 /\ mk = <<>>

\* ------------------------------------------------------------- plain pool
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Disjoint(x, y) == ~Less(x.a, y.z) \/ ~Less(y.a, x.z)
KnownBuf(a) == {b \in 1..Len(pl.bf) : pl.bf[b].a = a}
GetOK(ev) == LET K == KnownBuf(ev.a)  nb == [a |-> ev.a, z |-> ev.z] IN
  /\ ev.thr = "none" /\ ev.cap >= ev.n /\ ev.dmg = <<>> /\ ev.act = pl.act + 1
  /\ IF K = {} THEN /\ ev.tot = pl.tot + 1
                    /\ \A b \in 1..Len(pl.bf) : Disjoint(nb, pl.bf[b])
                    \* fresh memory only if no returned buffer has served this size before
                    /\ \A b \in 1..Len(pl.bf) : pl.bf[b].out \/ ev.n \notin pl.bf[b].req
     ELSE /\ ev.tot = pl.tot /\ \A b \in K : ~pl.bf[b].out /\ pl.bf[b].z = ev.z
GetNext(ev) == LET K == KnownBuf(ev.a)  pd == pl.pad \/ ev.n >= 10  rq == IF pd THEN {ev.n} ELSE {} IN
  IF K = {} THEN [pl EXCEPT !.bf = Append(@, [a |-> ev.a, z |-> ev.z, out |-> TRUE, req |-> rq, k |-> ev.k]), !.tot = @ + 1, !.act = @ + 1, !.pad = pd]
  ELSE LET b == CHOOSE x \in K : TRUE IN [pl EXCEPT !.bf[b].out = TRUE, !.bf[b].req = @ \cup rq, !.bf[b].k = ev.k, !.act = @ + 1, !.pad = pd]
\* a request that cannot be satisfied leaves every count and buffer as it was
HugeOK(ev) == ev.n > 1000000000 /\ ev.thr = "exception" /\ ev.dmg = <<>> /\ ev.act = pl.act /\ ev.tot = pl.tot
PutOK(ev) == ev.thr = "none" /\ ev.dmg = <<>> /\ ev.act = pl.act - 1 /\ ev.tot = pl.tot
PutNext(ev) == LET b == CHOOSE x \in 1..Len(pl.bf) : pl.bf[x].out /\ pl.bf[x].k = ev.k IN [pl EXCEPT !.bf[b].out = FALSE, !.act = @ - 1]
PBadOK(ev) == ev.thr = "exception" /\ ev.dmg = <<>> /\ ev.act = pl.act /\ ev.tot = pl.tot

\* ------------------------------------------------------------- slot machine
V3(A, i) == <<A[i], A[i+1], A[i+2]>>
AW(A)  == FullWindow(FieldDims(A[3], V3(A,4), Ghost(V3(A,7), V3(A,10)), V3(A,13)))
AG(A)  == Ghost(V3(A,7), V3(A,10))
NObj(A, b, owner) == NewObj(A[3], AW(A), AG(A), V3(A,13), b, owner)
ObsSlot(ev, k) == CHOOSE s \in {ev.sl[i] : i \in 1..Len(ev.sl)} : s.k = k
HasSlot(ev, k) == \E i \in 1..Len(ev.sl) : ev.sl[i].k = k
ObsA(ev, k) == IF HasSlot(ev, k) /\ "a" \in DOMAIN ObsSlot(ev, k) THEN ObsSlot(ev, k).a ELSE <<0,0>>
Supported(m) == m = "ram"
\* [s |-> new state, t |-> expected throw, ok |-> extra condition on the observation]
R(s, t, ok) == [s |-> s, t |-> t, ok |-> ok]
PoolField(ev, k, kd, n, v, mkobj(_), owner) ==
  LET a == ObsA(ev, k)  s0 == Drop(st, k)  ok == a # <<0,0>> /\ MayAcquire(st, a)  s1 == Acquire(s0, a, n, v)
  IN IF ~ok THEN R(st, "none", FALSE) ELSE R(AddObj(s1, k, kd, mkobj(BufOf(s1, a))), "none", TRUE)
Apply(ev) ==
  LET A == ev.args  op == ev.op  k == A[2] IN
  CASE op \in {"hEmpty", "hNull"} -> R(SetSlot(Drop(st, k), k, "h", 0), "none", TRUE)
    [] op = "hStore" -> LET O(b) == NObj(A, b, "store") IN PoolField(ev, k, "h", NPts(AW(A)), A[16], O, "store")
    [] op \in {"hUser", "fExt"} -> LET s0 == Drop(st, k)  s1 == Wrap(s0, ObsA(ev, k), NPts(AW(A)), A[16]) IN
                          R(AddObj(s1, k, IF op = "hUser" THEN "h" ELSE "f", NObj(A, Len(s1.bf), "none")), "none", TRUE)
    [] op = "hAsgRaw" -> LET s0 == DropRef(st, k)  s1 == Wrap(s0, ObsA(ev, k), NPts(AW(A)), A[16]) IN
                          R(AddObj(s1, k, "h", NObj(A, Len(s1.bf), "none")), "none", TRUE)
    [] op \in {"hAsgNull", "hDetach"} -> R(DropRef(st, k), "none", TRUE)
    [] op = "hCopy" -> LET o == st.sl[A[4]].o IN R(SetSlot(Drop(st, k), k, "h", o), "none", TRUE)
    [] op = "hAsg" -> LET o == st.sl[A[4]].o IN R(IF o = st.sl[k].o THEN st ELSE SetSlot(DropRef(st, k), k, "h", o), "none", TRUE)
    [] op = "del" -> R(Drop(st, k), "none", TRUE)
    [] op = "hGet" -> LET pr == Obj(st, A[4])  n == GetDims(A[3], pr)
                          O(b) == NewObj(A[3], FullWindow(n), pr.vg, pr.bc, b, "store") IN PoolField(ev, k, "h", Prod3(n), A[6], O, "store")
    [] op \in {"fInt", "fInt0"} -> LET O(b) == NObj(A, b, "self")  r == PoolField(ev, k, "f", NPts(AW(A)), A[16], O, "self") IN
                          IF op = "fInt" \/ ~r.ok THEN r ELSE R(SetMem(r.s, k, [i \in 1..NPts(AW(A)) |-> 0]), "none", TRUE)
    [] op = "fCopy" -> R(AddObj(Drop(st, k), k, "f", [Obj(st, A[4]) EXCEPT !.owner = "none"]), "none", TRUE)
    [] op = "fWin" -> LET j == Obj(st, A[4])  w == [g |-> j.w.g, o |-> V3(A,5), x |-> V3(A,8)] IN R(AddObj(Drop(st, k), k, "f", View(j, w)), "none", TRUE)
    [] op = "fReshape" -> LET j == Obj(st, A[4])  w == [g |-> j.w.g, o |-> Add3(j.w.o, V3(A,8)), x |-> Add3(j.w.x, V3(A,5))] IN R(AddObj(Drop(st, k), k, "f", View(j, w)), "none", TRUE)
    [] op = "fValid" -> R([st EXCEPT !.ob[st.sl[k].o] = ResetValid(@, Ghost(V3(A,4), V3(A,7)))], "none", TRUE)
    [] op = "fAsg" -> LET j == Obj(st, A[4])  i == Obj(st, k) IN
                      IF i.w # j.w THEN R(st, "exception", TRUE)
                      ELSE IF i.b = j.b THEN R(st, "none", TRUE)
                      ELSE R(SetMem(st, k, Copied(i, Mem(st, k), Mem(st, A[4]))), "none", TRUE)
    [] op = "wrf" -> R(SetMem(st, k, WrittenAt(Mem(st, k), A[4], A[5])), "none", TRUE)
    [] op = "wri" -> R(SetMem(st, k, WrittenAt(Mem(st, k), MemAt(Obj(st, k).w, A[4]), A[5])), "none", TRUE)
    [] op = "wrn" -> IF Obj(st, k).noint THEN R(st, "exception", TRUE)
                     ELSE R(SetMem(st, k, WrittenAt(Mem(st, k), MemAt(Obj(st, k).wi, A[4]), A[5])), "none", TRUE)
    [] op = "fill" -> R(SetMem(st, k, FillWin(Mem(st, k), Obj(st, k).w, A[4])), "none", TRUE)
    \* requests that this build cannot honour
    [] op = "addc" -> R(st, IF A[4] = "ram" /\ A[5] = 0 THEN "none" ELSE "exception", TRUE)
    [] op = "findc" -> IF A[4] = "ram" /\ A[5] = 0 THEN R(st, "none", ev.x) ELSE R(st, "exception", TRUE)
    [] op = "hasc" -> R(st, "none", ~ev.x)
    [] op = "remc" -> R(st, "none", TRUE)
    [] op \in {"fv", "cfv"} -> IF A[4] = "ram" THEN R(st, "none", ev.x = st.bf[Obj(st, k).b].a) ELSE R(st, "exception", TRUE)
    [] op = "fBad" -> R(st, "exception", TRUE)
    [] op = "hStoreBad" -> R(st, "exception", TRUE)
    [] OTHER -> R(st, "?", FALSE)
\* a field acquired for the first time from fresh memory raises both counts; one from a returned buffer only active
SlotOK(s, o) == LET sl == s.sl[o.k] IN
  /\ sl.kd = o.kd /\ o.nl = (sl.o = 0)
  /\ (sl.o # 0) => LET b == s.ob[sl.o]  m == s.bf[b.b].mem IN
      /\ o.t = b.t
      /\ (sl.kd = "h" => o.ct = Cnt(s, sl.o) /\ o.bfs = (b.owner = "store"))
      /\ o.a = s.bf[b.b].a /\ o.w = b.w /\ o.wi = b.wi /\ GEq(o.g, b.g) /\ GEq(o.vg, b.vg)
      /\ o.bc = b.bc /\ o.ne = HasExtra(b.t, b.bc) /\ o.mt = 0 /\ o.di = 0
      /\ o.wr /\ o.in = ~b.noint /\ o.win = ~b.noint
      /\ o.m = m
      /\ o.it = [n \in 1..NPts(b.w) |-> m[MemAt(b.w, n-1) + 1]]
IdsOK(s, ev) == \A i, j \in 1..Len(ev.sl) : (~ev.sl[i].nl /\ ~ev.sl[j].nl) => ((ev.sl[i].id = ev.sl[j].id) = (s.sl[ev.sl[i].k].o = s.sl[ev.sl[j].k].o))
BadSlots(s, ev) == {ev.sl[i].k : i \in {j \in 1..Len(ev.sl) : ~SlotOK(s, ev.sl[j])}}
OpOK(ev, r) == /\ r.ok /\ ev.thr = r.t
               /\ {ev.sl[i].k : i \in 1..Len(ev.sl)} = Used(r.s)
               /\ BadSlots(r.s, ev) = {} /\ IdsOK(r.s, ev)
               /\ ev.act = r.s.act
               \* fBad/hStoreBad may have allocated and returned a buffer: total may then only grow
               /\ ev.tot = r.s.tot

\* ------------------------------------------------------------- masks
\* mask records: [w, wi, g, vg, bc, set (memory positions), t]
MaskOf(A) == LET n == FieldDims(A[3], V3(A,4), AG(A), V3(A,13))  np == A[16]
                 o0 == NewObj(A[3], FullWindow(n), AG(A), V3(A,13), 0, "none")
                 ob == IF Len(A) > 16 + 3*np THEN ResetValid(o0, Ghost(V3(A, 17+3*np), V3(A, 20+3*np))) ELSE o0 IN
  [w |-> ob.w, wi |-> ob.wi, g |-> ob.g, vg |-> ob.vg, bc |-> ob.bc, qg |-> ob.vg,
   set |-> {Flat(n, Add3(V3(A, 17+3*i), ob.wi.o)) : i \in 0..(np-1)}]
MaskView(m, w) == [m EXCEPT !.w = w, !.vg = m.g]
MaskNext(ev) == LET A == ev.args IN
  CASE ev.op = "mk" -> (A[2] :> MaskOf(A)) @@ mk
    [] ev.op = "cp" -> (A[2] :> mk[A[4]]) @@ mk
    [] ev.op = "win" -> (A[2] :> MaskView(mk[A[4]], [g |-> mk[A[4]].w.g, o |-> V3(A,5), x |-> V3(A,8)])) @@ mk
    [] ev.op = "rsh" -> LET m == mk[A[4]] IN (A[2] :> MaskView(m, [g |-> m.w.g, o |-> Add3(m.w.o, V3(A,8)), x |-> Add3(m.w.x, V3(A,5))])) @@ mk
    [] ev.op = "del" -> [k \in (DOMAIN mk) \ {A[2]} |-> mk[k]]
    [] OTHER -> mk
Bits(m, w) == [n \in 1..NPts(w) |-> B2I(MemAt(w, n-1) \in m.set)]
MaskOK1(m, o) == LET b == Bits(m, m.w)  N == NPts(m.w)
                     qw == [g |-> m.w.g, o |-> Sub3(m.wi.o, m.qg.m), x |-> Add3(Add3(m.wi.x, m.qg.m), m.qg.p)] IN
  /\ o.w = m.w /\ o.wi = m.wi /\ GEq(o.g, m.g) /\ GEq(o.vg, m.vg) /\ o.bc = m.bc
  /\ o.q = Bits(m, qw) /\ o.it = b /\ o.n = N /\ o.idx = b
  /\ o.rev = [i \in 1..N |-> b[N+1-i]]
  /\ o.rnd = [i \in 1..N |-> b[(((i-1)*5+3) % N) + 1]]
  /\ o.in = Bits(m, m.wi)
MaskOK(ev, M) == /\ {ev.ms[i].k : i \in 1..Len(ev.ms)} = DOMAIN M
                 /\ \A i \in 1..Len(ev.ms) : MaskOK1(M[ev.ms[i].k], ev.ms[i])

ExpOp(ev, r) == IF r.t # ev.thr THEN <<"outcome", r.t>> ELSE IF ~r.ok THEN "a buffer that is not in use, and a result as specified"
                ELSE IF BadSlots(r.s, ev) # {} THEN LET k == CHOOSE x \in BadSlots(r.s, ev) : TRUE  IN <<"slot", k, r.s.sl[k], IF r.s.sl[k].o = 0 THEN <<>> ELSE <<Cnt(r.s, r.s.sl[k].o), r.s.ob[r.s.sl[k].o], r.s.bf[r.s.ob[r.s.sl[k].o].b].mem>> >>
                ELSE <<"slots", Used(r.s), "active", r.s.act, "total", r.s.tot>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE /\ st' = St0 /\ pl' = Pl0 /\ mk' = <<>>
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED <<skip, st, pl, mk>>
           ELSE IF ev.e = "Op" THEN LET r == Apply(ev) IN
                IF OpOK(ev, r) THEN st' = r.s /\ UNCHANGED <<skip, pl, mk>>
                ELSE Reject(l, ExpOp(ev, r)) /\ skip' = TRUE /\ UNCHANGED <<st, pl, mk>>
           ELSE IF ev.e = "Mask" THEN LET M == MaskNext(ev) IN
                IF MaskOK(ev, M) THEN mk' = M /\ UNCHANGED <<skip, st, pl>>
                ELSE Reject(l, <<"masks", M>>) /\ skip' = TRUE /\ UNCHANGED <<st, pl, mk>>
           ELSE IF ev.e = "Get" /\ ev.n <= 1000000000 /\ GetOK(ev) THEN pl' = GetNext(ev) /\ UNCHANGED <<skip, st, mk>>
           ELSE IF ev.e = "Get" /\ HugeOK(ev) THEN UNCHANGED <<skip, st, pl, mk>>
           ELSE IF ev.e = "Put" /\ PutOK(ev) THEN pl' = PutNext(ev) /\ UNCHANGED <<skip, st, mk>>
           ELSE IF ev.e = "Bad" /\ PBadOK(ev) THEN UNCHANGED <<skip, st, pl, mk>>
           ELSE IF ev.e = "Guards" /\ ev.ok THEN UNCHANGED <<skip, st, pl, mk>>
           ELSE Reject(l, <<"pool active", pl.act, "total", pl.tot, "known", pl.bf>>) /\ skip' = TRUE /\ UNCHANGED <<st, pl, mk>>
Spec == Init /\ [][Next]_vars
=============================================================================
