----------------------------- MODULE TraceGeom -----------------------------
(* Recorded calls of the window, iterator, ghost, sizing, trait and grid interfaces against Geometry.            *)
EXTENDS TraceBase, Geometry
VARIABLES l, skip, itw, ipos, regs
vars == <<l, skip, itw, ipos, regs>>
NoWin == FullWindow(<<1,1,1>>)
G0 == Ghost(Zero3, Zero3)
Init == l = 1 /\ skip = FALSE /\ itw = NoWin /\ ipos = 0 /\ regs = [i \in 1..6 |-> G0]

Concat3(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE F[i-1] \o q[i] IN F[Len(q)]
\* q is the concatenation of the triples f(0), f(1), .. f(n-1)
IsTriples(q, n, f(_)) == Len(q) = 3*n /\ \A i \in 0..(n-1) : LET v == f(i) IN q[3*i+1] = v[1] /\ q[3*i+2] = v[2] /\ q[3*i+3] = v[3]

WinOK(ev) == LET w == [g |-> ev.g, o |-> ev.o, x |-> ev.x] IN
  /\ ev.w = w /\ ev.w2 = w /\ ev.w3 = w /\ ev.np = Prod3(w.g) /\ ev.lp = NPts(w)
  /\ ev.gd = w.g /\ ev.od = w.o /\ ev.xd = w.x /\ ev.sane /\ ev.eq
IndexOK(ev) == LET w == ev.w IN
  /\ Len(ev.fl) = NPts(w) /\ \A n \in 1..NPts(w) : ev.fl[n] = MemAt(w, n-1)
  /\ LET G(n) == Unflat(w.g, n) IN IsTriples(ev.gi, Prod3(w.g), G)
  /\ LET L(n) == Unflat(w.x, n) IN IsTriples(ev.li, NPts(w), L)
CmpWinOK(ev) == ev.eq = (ev.a = ev.b) /\ ev.ne = (ev.a # ev.b)
\* judged on the observed parts, not on one particular placement of the larger parts along different axes
RefineOK(ev) == LET w == ev.w  P == ev.parts  n == Prod3(ev.s)
                    At(i, j, k) == P[1 + i + j*ev.s[1] + k*ev.s[1]*ev.s[2]] IN
  /\ Len(P) = n
  /\ \A q \in 1..n : P[q].g = w.g /\ WindowOK(P[q])
  /\ P = Parts(w, ev.s)
DerefOK(ev, q) == IF q < NPts(itw) THEN ev.val = MemAt(itw, q) /\ ev.loc = LocalAt(itw, q) ELSE ev.val = -1
PosOK(ev, q) == /\ ev.db = q /\ ev.de = NPts(itw) - q
                /\ ev.eqb = (q = 0) /\ ev.neb = (q # 0) /\ ev.eqe = (q = NPts(itw))
                /\ ev.lte = (q < NPts(itw)) /\ ev.gtb = (q > 0) /\ ev.lee /\ ev.geb
                /\ DerefOK(ev, q)
NewPos(ev) == CASE ev.op \in {"++", "p++"} -> ipos + 1
                [] ev.op \in {"--", "p--"} -> ipos - 1
                [] ev.op \in {"+=", "+"}   -> ipos + ev.n
                [] ev.op \in {"-=", "-"}   -> ipos - ev.n
                [] OTHER -> ipos
ExtraOK(ev) == CASE ev.op \in {"p++", "p--"} -> ev.x = ipos
                 [] ev.op = "[]" -> ev.x = MemAt(itw, ipos + ev.n)
                 [] ev.op = "wr" -> ev.x = MemAt(itw, ipos)
                 [] OTHER -> TRUE
CmpOK(ev) == /\ ev.d = ev.p - ev.q /\ ev.eq = (ev.p = ev.q) /\ ev.ne = (ev.p # ev.q)
             /\ ev.lt = (ev.p < ev.q) /\ ev.gt = (ev.p > ev.q) /\ ev.le = (ev.p <= ev.q) /\ ev.ge = (ev.p >= ev.q)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q)+1-i]]
WalkOK(ev) == LET n == FieldDims(ev.t, ev.dim, ev.g, ev.bc)
                  cw == CellSeq(ValidWindow(n, ev.g, ev.v))  ci == CellSeq(Interior(n, ev.g)) IN
  /\ ev.m = cw /\ ev.cm = cw /\ ev.rm = Rev(cw) /\ ev.rcm = Rev(cw) /\ ev.in = ci /\ ev.ci = ci /\ ev.ri = Rev(ci)
  /\ ev.nm = Len(cw) /\ ev.nc = Len(cw) /\ ev.ni = Len(ci) /\ ev.nci = Len(ci)

TraitsOK(ev) == LET t == FieldType[ev.t] IN ev.off = t.off /\ ev.bcx = t.bcx /\ ev.fd = t.fd /\ ev.stag = t.off
FacesOK(ev) == <<ev.x, ev.y, ev.z>> = FaceOf[ev.t] /\ <<ev.vx, ev.vy, ev.vz>> = <<ev.t, ev.t, ev.t>>
Lt(a, b) == <<B2I(a[1] < b[1]), B2I(a[2] < b[2]), B2I(a[3] < b[3])>>
TripletOK(ev) == /\ ev.add = Add3(ev.a, ev.b) /\ ev.sub = Sub3(ev.a, ev.b) /\ ev.mul = Mul3(ev.a, ev.b)
                 /\ ev.lt = Lt(ev.a, ev.b) /\ ev.gt = Lt(ev.b, ev.a)
                 /\ ev.abs = <<Abs1(ev.a[1]), Abs1(ev.a[2]), Abs1(ev.a[3])>>
                 /\ ev.pos = <<Max2(0,ev.a[1]), Max2(0,ev.a[2]), Max2(0,ev.a[3])>> /\ ev.neg = Neg3(ev.a)
                 /\ ev.ext = ev.a /\ ev.val = ev.a /\ ev.kr = B2I(ev.a[1] = ev.b[1])
\* integer division drops the fraction, towards zero
TDiv(a, b) == LET q == Abs1(a) \div Abs1(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Map3(F(_), a) == <<F(a[1]), F(a[2]), F(a[3])>>
Quotients(ev) == LET a == ev.a  b == ev.b  s == ev.s IN
  /\ ev.div = (IF 0 \in {b[1],b[2],b[3]} THEN a ELSE <<TDiv(a[1],b[1]), TDiv(a[2],b[2]), TDiv(a[3],b[3])>>)
  /\ ev.divs = (IF s = 0 THEN a ELSE Map3(LAMBDA x : TDiv(x,s), a))
  \* a real factor, divisor or summand h = s/2
  /\ ev.mulh = Map3(LAMBDA x : TDiv(x*s,2), a) /\ ev.divh = (IF s = 0 THEN a ELSE Map3(LAMBDA x : TDiv(2*x,s), a))
  /\ ev.addh = Map3(LAMBDA x : TDiv(2*x+s,2), a)
  \* vectors of real numbers
  /\ ev.dd = <<4*a[1]*b[1]-b[1], 4*a[2]*b[2]-b[2], 4*a[3]*b[3]-b[3]>>
  /\ ev.de = <<2*a[1]+b[1]-2*s, 2*a[2]+b[2]-s, 2*a[3]+b[3]-3*s>> /\ ev.deq = (a = b)
  /\ ev.fl = Map3(LAMBDA x : TDiv(x,2), a)
IVecOK(ev) == Quotients(ev) /\ LET a == ev.a  b == ev.b IN
  /\ ev.add = Add3(a,b) /\ ev.sub = Sub3(a,b) /\ ev.mul = Mul3(a,b) /\ ev.pe = Add3(a,b) /\ ev.me = Sub3(a,b) /\ ev.as = a
  /\ ev.fv = a /\ ev.fa = b /\ ev.wr = <<a[1], b[2], a[3]>>
  /\ ev.adds = <<a[1]+ev.s, a[2]+ev.s, a[3]+ev.s>> /\ ev.muls = <<a[1]*ev.s, a[2]*ev.s, a[3]*ev.s>>
  /\ ev.min = Min3(a,b) /\ ev.sum = a[1]+a[2]+a[3] /\ ev.eq = (a = b) /\ ev.ne = (a # b)
SizingOK(ev) == LET n == FieldDims(ev.t, ev.dim, ev.g, ev.bc)  h == HasExtra(ev.t, ev.bc)  ge == EffGhost(ev.dim, ev.g) IN
  /\ ev.hb = ev.bc /\ ev.hb1 = ev.bc /\ ev.ne = h /\ ev.ne1 = h /\ ev.he = h /\ ev.he1 = h /\ ev.he3 = h
  /\ ev.gdim = n /\ ev.w = FullWindow(n) /\ ev.fw = FullWindow(n) /\ ev.fi = Interior(n, ge)
  /\ ev.fg.m = ge.m /\ ev.fg.p = ge.p /\ ev.fv = ev.fg /\ ev.bytes = Prod3(n)
GridVal(ev, n, k) == LET d == ev.dir + 1  stag == FieldType[ev.t].off[d]  sp == 2 * ev.dx8[d]
                     IN sp * (Unflat(n, k)[d] - ev.g.m[d]) + (IF stag = 0 THEN ev.dx8[d] ELSE 0)
GridOK(ev) == LET n == FieldDims(ev.t, ev.dim, ev.g, ev.bc) IN
  /\ ev.sp = <<2*ev.dx8[1], 2*ev.dx8[2], 2*ev.dx8[3]>> /\ ev.ext = ev.dim
  /\ ev.len = <<2*ev.dx8[1]*ev.dim[1], 2*ev.dx8[2]*ev.dim[2], 2*ev.dx8[3]*ev.dim[3]>>
  /\ Len(ev.v) = Prod3(n) /\ \A k \in 0..(Prod3(n)-1) : ev.v[k+1] = GridVal(ev, n, k)

\* ghost register machine
Reg(i) == regs[i+1]
GhostThrows(ev) == (ev.op = "gsub" /\ InfG(Reg(ev.args[3]))) \/ (ev.op = "gsubeq" /\ InfG(Reg(ev.args[2])))
GhostVal(ev) == LET A == ev.args IN
  CASE ev.op \in {"gset6", "gsetv"} -> Ghost(<<A[2],A[3],A[4]>>, <<A[5],A[6],A[7]>>)
    [] ev.op = "gset1" -> Ghost(<<A[2],A[2],A[2]>>, <<A[2],A[2],A[2]>>)
    [] ev.op = "gcopy" -> Reg(A[2])
    [] ev.op = "gadd" -> GAdd(Reg(A[2]), Reg(A[3]))
    [] ev.op = "gsub" -> GSub(Reg(A[2]), Reg(A[3]))
    [] ev.op = "gaddeq" -> GAdd(Reg(A[1]), Reg(A[2]))
    [] ev.op = "gsubeq" -> GSub(Reg(A[1]), Reg(A[2]))
    [] ev.op = "gmin" -> GMin(Reg(A[2]), Reg(A[3]))
    [] ev.op = "gp2g" -> Pt2G(<<A[2],A[3],A[4]>>)
    [] ev.op = "gsetm" -> Ghost(<<A[2],A[3],A[4]>>, Reg(A[1]).p)
    [] ev.op = "gsetp" -> Ghost(Reg(A[1]).m, <<A[2],A[3],A[4]>>)
    [] OTHER -> Reg(A[1])
NewRegs(ev) == IF GhostThrows(ev) THEN regs ELSE [regs EXCEPT ![ev.args[1]+1] = GhostVal(ev)]
GhostOK(ev) == LET R == NewRegs(ev)  r == R[ev.args[1]+1] IN
  /\ ev.thr = GhostThrows(ev)
  /\ \A i \in 1..6 : ev.regs[i].m = R[i].m /\ ev.regs[i].p = R[i].p
  /\ ev.mi = r.m /\ ev.pi = r.p
  /\ (ev.op = "geq" => ev.eq = GEq(Reg(ev.args[1]), Reg(ev.args[2])))

OK(ev) == CASE ev.e = "Win" -> WinOK(ev)     [] ev.e = "Index" -> IndexOK(ev)   [] ev.e = "CmpWin" -> CmpWinOK(ev)
            [] ev.e = "Refine" -> RefineOK(ev) [] ev.e = "Iter" -> WindowOK(ev.w)
            [] ev.e = "Move" -> ExtraOK(ev) /\ PosOK(ev, NewPos(ev))            [] ev.e = "Cmp" -> CmpOK(ev)
            [] ev.e = "Walk" -> WalkOK(ev)   [] ev.e = "Traits" -> TraitsOK(ev) [] ev.e = "Faces" -> FacesOK(ev)
            [] ev.e = "Triplet" -> TripletOK(ev) [] ev.e = "IVec" -> IVecOK(ev) [] ev.e = "Sizing" -> SizingOK(ev)
            [] ev.e = "Grid" -> GridOK(ev)   [] ev.e = "Ghost" -> GhostOK(ev)
            [] OTHER -> FALSE      \* Crash, Uncaught
Exp(ev) == CASE ev.e = "Refine" -> Parts(ev.w, ev.s)
             [] ev.e = "Move" -> <<"pos", NewPos(ev), "mem", IF NewPos(ev) < NPts(itw) THEN MemAt(itw, NewPos(ev)) ELSE -1>>
             [] ev.e = "Sizing" -> <<FieldDims(ev.t, ev.dim, ev.g, ev.bc), HasExtra(ev.t, ev.bc)>>
             [] ev.e = "Ghost" -> NewRegs(ev)
             [] ev.e = "Traits" -> FieldType[ev.t]
             [] OTHER -> "a value satisfying the specification"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET ev == Trace[l] IN
           IF ev.e = "Begin" THEN skip' = FALSE /\ itw' = NoWin /\ ipos' = 0 /\ regs' = [i \in 1..6 |-> G0]
           ELSE IF ev.e = "End" \/ skip THEN UNCHANGED <<skip, itw, ipos, regs>>
           ELSE IF OK(ev) THEN
                /\ skip' = FALSE
                /\ itw' = (IF ev.e = "Iter" THEN ev.w ELSE itw)
                /\ ipos' = (IF ev.e = "Iter" THEN 0 ELSE IF ev.e = "Move" THEN NewPos(ev) ELSE ipos)
                /\ regs' = (IF ev.e = "Ghost" THEN NewRegs(ev) ELSE regs)
           ELSE Reject(l, Exp(ev)) /\ skip' = TRUE /\ UNCHANGED <<itw, ipos, regs>>
Spec == Init /\ [][Next]_vars
=============================================================================
