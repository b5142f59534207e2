----------------------------- MODULE TraceFeet ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real HumanoidFeetSupervisor against   *)
(* FeetSupervisor.  Every event carries the call, its arguments and the    *)
(* observable state after it (o).  The next abstract state is computed by  *)
(* the specification's own call functions; the observables are compared    *)
(* property by property and every disagreement is reported as              *)
(*   BAD <line> <property> <what>                                          *)
(***************************************************************************)
EXTENDS FeetSupervisor, Json, IOUtils

\* the property being decided (only its comparisons are made)
Prop == IOEnv.PROP
Skip(p) == p # Prop

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES st, l, skip
tvars == <<st, l, skip>>

TInit == st = InitState(1, 1) /\ l = 1 /\ skip = FALSE

Ev == Trace[l]
A(i) == Ev.a[i]
O == Ev.o

\* a foot as logged
SeqRec(f) == [x |-> f.x, y |-> f.y, z |-> f.z]

\* ------------------------------------------------------------------ comparisons -----------
SqNear(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SAbs(a[i] - b[i]) <= t
\* foot coordinate: position, velocity per tick (unit 1e-6), acceleration per tick^2 (unit 1e-7)
CoNear(a, b, t) == /\ SAbs(a[1] - b[1]) <= t /\ SAbs(a[2] - b[2]) <= 10 * t /\ SAbs(a[3] - b[3]) <= 100 * t
Same(a, b) == a = b

\* row r (0-based), column j (1-based) of the expected selection matrices
Vexp(s, r, j) == IF StepAt(s, r) = j THEN 1 ELSE 0
SelOK(s, V, V0, VT, k) ==
  /\ Len(V) = s.N /\ Len(V0) = s.N /\ Len(VT) = s.M
  /\ \A r \in 1..s.N : /\ V0[r] = << IF StepAt(s, r - 1) = 0 THEN k ELSE 0 >>
                       /\ Len(V[r]) = s.M
                       /\ \A j \in 1..s.M : V[r][j] = k * Vexp(s, r - 1, j)
  /\ \A j \in 1..s.M : Len(VT[j]) = s.N /\ \A r \in 1..s.N : VT[j][r] = k * Vexp(s, r - 1, j)
\* the same information, robust to the number of columns: the samples supported by the current
\* support (what the clock says)
V0OK(s, V0) == Len(V0) = s.N /\ \A r \in 1..s.N : V0[r] = << IF StepAt(s, r - 1) = 0 THEN 1 ELSE 0 >>

WeightOK(s, w) ==
  LET w0 == RDiv(10000 * TimeToSample(s), s.K) IN
  /\ Len(w) = s.N
  /\ s.N > 1 => /\ SAbs(w[1] - w0) <= 3
                /\ SAbs(w[s.N] - (10500 - w0)) <= 6
                /\ \A i \in 2..(s.N - 1) : w[i] = 10000

SupOK(s) == Near(O.sup, SupportPos(s), 3)
KinOK(s) == /\ Len(O.kinP) = s.M
            /\ \A j \in 1..s.M : SameRegion(O.kinP[j], Range(KinOf(s, j)), 2)
SameSoles(s) == Range(s.copL) = Range(s.copR)
StanceSamplesOK(s) ==
  /\ Len(O.copP) = s.N
  /\ SameSoles(s) \/ \A r \in 0..(s.N - 1) :
       TypeAt(s, r) # DS => SameRegion(O.copP[r + 1], IF TypeAt(s, r) = LSS THEN Range(s.copL) ELSE Range(s.copR), 2)
CopOK(s) ==
  /\ Len(O.copP) = s.N
  \* consecutive samples of the same phase share their polygon: compare each phase once
  /\ \A r \in 0..(s.N - 1) :
       IF r > 0 /\ PhaseAt(s.tl, r) = PhaseAt(s.tl, r - 1) THEN O.copP[r + 1] = O.copP[r]
       ELSE SameRegion(O.copP[r + 1], CopPointsAt(s, r), 4)
MaxOK(s) == /\ \A r \in 1..Len(O.copP) : O.maxCop >= Len(O.copP[r])
            /\ \A r \in 1..Len(O.kinP) : O.maxKin >= Len(O.kinP[r])

\* ------------------------------------------------------------------ verdicts --------------
\* set of <<property, what>> that the event contradicts; pre = state before the call, s = after
UpdateBad(pre, s, tol) ==
  {x \in { <<"C01", "double support flag", Skip("C01") \/ (O.ds = (s.front.type = DS))>>,
           <<"C01", "support foot", Skip("C01") \/ (SupOK(s))>>,
           <<"C01", "stance foot of the previewed steps", Skip("C01") \/ (KinOK(s))>>,
           <<"C01", "stance foot of the samples", Skip("C01") \/ (StanceSamplesOK(s))>>,
           <<"C02", "double support flag", Skip("C02") \/ (O.ds = (s.front.type = DS))>>,
           <<"C02", "calls before the next sample", Skip("C02") \/ (O.nbc = CallsBeforeSample(s))>>,
           <<"C02", "sample weights", Skip("C02") \/ (WeightOK(s, O.w) /\ O.wdiag)>>,
           <<"C02", "samples of the current support", Skip("C02") \/ (V0OK(s, O.V0))>>,
           <<"C02", "support foot", Skip("C02") \/ (SupOK(s))>>,
           <<"C03", "number of previewed steps", Skip("C03") \/ (O.M = s.M /\ O.vc = s.M /\ O.vtr = s.M)>>,
           <<"C03", "selection matrices", Skip("C03") \/ (SelOK(s, O.V, O.V0, O.VT, 1))>>,
           <<"C03", "feet position dynamic", Skip("C03") \/ (SelOK(s, O.U, O.S, O.UT, 1000) /\ O.rot)>>,
           <<"C04", "variable size", Skip("C04") \/ (O.rows = 2 * s.N + 2 * s.M)>>,
           <<"C04", "CoP part", Skip("C04") \/ (O.cop = [i \in 1..(2 * s.N) |-> 100 * i])>>,
           <<"C04", "step abscissas", Skip("C04") \/ (SqNear(O.sx, s.sx, 4))>>,
           <<"C04", "step ordinates", Skip("C04") \/ (SqNear(O.sy, s.sy, 4))>>,
           <<"C05", "CoP polygons", Skip("C05") \/ (CopOK(s))>>,
           <<"C05", "reach polygons", Skip("C05") \/ (KinOK(s))>>,
           <<"C05", "frame of the polygons", Skip("C05") \/ (SupOK(s))>>,
           <<"C05", "maximum numbers of constraints", Skip("C05") \/ (MaxOK(s))>>,
           <<"C06", "feet at rest during the preview", Skip("C06") \/ (SeqRec(O.L) = pre.L /\ SeqRec(O.R) = pre.R)>>,
           <<"C07", "feet at rest during the preview", Skip("C07") \/ (O.L.z = pre.L.z /\ O.R.z = pre.R.z)>> } : ~x[3]}

\* tol: length units of 1e-5 m
ZInside(f, h, tol) == f.z[1] >= -tol /\ f.z[1] <= h + tol
FeetBad(pre, s, tol) ==
  LET moving == IF Flying(pre) THEN (IF pre.front.type = LSS THEN RSS ELSE LSS) ELSE "none" IN
  {x \in { <<"C06", "left foot still", Skip("C06") \/ (moving = LSS \/ SeqRec(O.L) = pre.L)>>,
           <<"C06", "right foot still", Skip("C06") \/ (moving = RSS \/ SeqRec(O.R) = pre.R)>>,
           <<"C06", "left foot ground motion", Skip("C06") \/ (moving # LSS \/ (CoNear(O.L.x, s.L.x, tol) /\ CoNear(O.L.y, s.L.y, tol)))>>,
           <<"C06", "right foot ground motion", Skip("C06") \/ (moving # RSS \/ (CoNear(O.R.x, s.R.x, tol) /\ CoNear(O.R.y, s.R.y, tol)))>>,
           <<"C06", "touch-down height", Skip("C06") \/ moving = "none" \/ s.ttnp > 0 \/
                (CoNear(O.L.z, <<0, 0, 0>>, tol) /\ CoNear(O.R.z, <<0, 0, 0>>, tol))>>,
           <<"C07", "left foot height", Skip("C07") \/ (moving = LSS \/ O.L.z = pre.L.z)>>,
           <<"C07", "right foot height", Skip("C07") \/ (moving = RSS \/ O.R.z = pre.R.z)>>,
           <<"C07", "left swing height", Skip("C07") \/ (moving # LSS \/ CoNear(O.L.z, s.L.z, tol))>>,
           <<"C07", "right swing height", Skip("C07") \/ (moving # RSS \/ CoNear(O.R.z, s.R.z, tol))>>,
           <<"C07", "left foot clearance bounds", Skip("C07") \/ (~s.calm \/ ZInside(O.L, s.hL, tol))>>,
           <<"C07", "right foot clearance bounds", Skip("C07") \/ (~s.calm \/ ZInside(O.R, s.hR, tol))>> } : ~x[3]}

\* ------------------------------------------------------------------ one event -------------
Reset == LET k == A(1) IN
  [InitState(A(1), A(2)) EXCEPT !.copL = A(3), !.copR = A(4), !.kinL = A(5), !.kinR = A(6),
     !.hL = 5000, !.hR = 4000,
     !.L = [NoFoot EXCEPT !.y = <<10000, 0, 0>>], !.R = [NoFoot EXCEPT !.y = <<-10000, 0, 0>>]]

\* (legal, next) by operation
Legal ==
  CASE Ev.op = "step" -> CanSetStep(st, A(1)) /\ PeriodOK(st, A(1)) /\ HorizonOK(DoSetStep(st, A(1)))
    [] Ev.op = "ds" -> CanSetDS(st, A(1)) /\ PeriodOK(st, A(1))
    [] Ev.op = "update" -> FbOK(st, A(1)) /\ HorizonOK(st) /\ (st.ttnp = 0 => st.nxt # << >>)
    [] Ev.op = "feet" -> CanFeet(st, A(1)) /\ Len(A(2)) = st.M /\ Len(A(3)) = st.M
    [] Ev.op = "keep" -> CanFeet(st, A(1))
    [] OTHER -> TRUE

After ==
  CASE Ev.op = "reset" -> Reset
    [] Ev.op = "move" -> DoSetMove(st, A(1) = 1)
    [] Ev.op = "step" -> DoSetStep(st, A(1))
    [] Ev.op = "ds" -> DoSetDS(st, A(1))
    [] Ev.op = "poly" -> [st EXCEPT !.copL = A(1), !.copR = A(2), !.kinL = A(3), !.kinR = A(4)]
    [] Ev.op = "height" -> [st EXCEPT !.hL = A(1), !.hR = A(2)]
    [] Ev.op = "place" -> [st EXCEPT !.L = [NoFoot EXCEPT !.x = <<A(1), 0, 0>>, !.y = <<A(2), 0, 0>>],
                                     !.R = [NoFoot EXCEPT !.x = <<A(3), 0, 0>>, !.y = <<A(4), 0, 0>>]]
    [] Ev.op = "N" -> [st EXCEPT !.N = A(1)]
    [] Ev.op = "update" -> DoUpdate(st, A(1))
    [] Ev.op = "feet" -> DoFeet(st, A(2), A(3), A(1))
    [] Ev.op = "keep" -> DoFeet(st, st.sx, st.sy, A(1))

Bads(s) ==
  IF Ev.crash THEN {<<"ALL", "the call did not return", FALSE>>}
  ELSE CASE Ev.op = "update" -> UpdateBad(st, s, Ev.tol)
         [] Ev.op \in {"feet", "keep"} -> FeetBad(st, s, Ev.tol)
         [] OTHER -> {}

Report(b) == \A x \in b : PrintT("BAD " \o ToString(l) \o " " \o x[1] \o " " \o x[2])

\* the feet the next call starts from are the ones the implementation reported
Adopt(s) ==
  IF Ev.crash \/ Ev.op \notin {"feet", "keep"} THEN s
  ELSE [s EXCEPT !.L = SeqRec(O.L), !.R = SeqRec(O.R)]

TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op # "reset" /\ skip
     THEN UNCHANGED <<st, skip>>
     ELSE LET s == After IN
          /\ Assert(Ev.op = "reset" \/ Legal, <<"illegal history at line", l>>)
          /\ LET b == Bads(s) IN
             /\ Report(b)
             \* after a crash nothing of the history remains to be checked
             /\ skip' = Ev.crash
             /\ st' = Adopt(s)

TSpec == TInit /\ [][TNext]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
