--------------------------- MODULE FeetSupervisor ---------------------------
(***************************************************************************)
(* The humanoid feet supervisor: the walking state machine, its preview    *)
(* over the horizon, the support polygons, the list of previewed steps     *)
(* kept inside the caller's optimisation variable, and the feet motion.    *)
(*                                                                         *)
(* Time is counted in ticks; one sample lasts st.K ticks and one feedback  *)
(* period a divisor of it.  Step positions, polygons: G units (1e-4 m).    *)
(* Foot states: <<p, v, a>> in 1e-5 m, 1e-6 m/tick, 1e-7 m/tick^2.         *)
(*                                                                         *)
(* The state is one record, and every public call is a function from       *)
(* (state, arguments) to the next state; the actions below and the trace   *)
(* specification both use these functions.                                 *)
(***************************************************************************)
EXTENDS Geometry, Spline, TLC

DS  == "DS"
LSS == "L"      \* single support on the left foot
RSS == "R"      \* single support on the right foot

CeilDiv(a, b) == (a + b - 1) \div b

NoFoot == [x |-> <<0, 0, 0>>, y |-> <<0, 0, 0>>, z |-> <<0, 0, 0>>]

\* ------------------------------------------------------------------ initial state ---------
InitState(N, K) ==
  [ N |-> N, K |-> K,
    move |-> FALSE,
    front |-> [type |-> DS, dur |-> 2 * K],     \* phase being executed
    nxt |-> << >>,                              \* phase committed to follow it, if previewed
    ttnp |-> 2 * K,                             \* ticks until the end of the phase
    stepP |-> 2 * K, dsP |-> 2 * K,
    fb |-> K,
    M |-> 0,                                    \* number of previewed steps
    tl |-> << >>,                               \* previewed phases (after the front)
    sx |-> << >>, sy |-> << >>,                 \* step positions in the caller's variable
    L |-> NoFoot, R |-> NoFoot,
    hL |-> 0, hR |-> 0,                         \* maximum heights (1e-5 m)
    calm |-> TRUE,                              \* no retiming since the single support began
    copL |-> << >>, copR |-> << >>, kinL |-> << >>, kinR |-> << >> ]

\* ------------------------------------------------------------------ the state machine -----
\* the phase that follows a phase of type t when the walking order is mv
NextType(t, mv) ==
  IF t = DS THEN (IF mv THEN LSS ELSE DS)
  ELSE IF ~mv THEN DS
  ELSE IF t = LSS THEN RSS ELSE LSS

DurOf(s, t) == IF t = DS THEN s.dsP ELSE s.stepP

\* Phases previewed after `last`: those that begin at one of the N samples, row r is the first
\* sample (0-based) of the phase.  A phase is `landing` when it begins with a step landing, i.e.
\* when it follows a single support.
RECURSIVE Preview(_, _, _)
Preview(s, last, row) ==
  IF row > s.N - 1 THEN << >>
  ELSE LET t == NextType(last, s.move)
           d == DurOf(s, t)
       IN << [type |-> t, dur |-> d, row |-> row, landing |-> (last # DS)] >>
          \o Preview(s, t, row + CeilDiv(d, s.K))

\* time until the next sample: in 1..K
TimeToSample(s) == ((s.ttnp - 1) % s.K) + 1
\* first sample (0-based) that belongs to the phase after the current one
FirstRow(s) == CeilDiv(s.ttnp, s.K) - 1

\* index into tl of the phase in force at sample r (0: the current phase)
PhaseAt(tl, r) == Cardinality({i \in 1..Len(tl) : tl[i].row <= r})
TypeAt(s, r) == LET i == PhaseAt(s.tl, r) IN IF i = 0 THEN s.front.type ELSE s.tl[i].type
\* number of landings up to sample r: 0 = the current support, j = the j-th previewed step
StepAt(s, r) == Cardinality({i \in 1..Len(s.tl) : s.tl[i].row <= r /\ s.tl[i].landing})

\* ------------------------------------------------------------------ support ---------------
\* ground position, in G units, doubled
Pos2(f) == << RDiv(2 * f.x[1], 10), RDiv(2 * f.y[1], 10) >>
\* what single support (if any) the previewed steps are counted from: the foot on which the
\* robot stands when it is about to make its first previewed step
SupportPos2(s) ==
  IF s.front.type = RSS THEN Pos2(s.R)
  ELSE IF s.front.type = DS /\ ~s.move
       THEN << RDiv(s.L.x[1] + s.R.x[1], 10), RDiv(s.L.y[1] + s.R.y[1], 10) >>
       ELSE Pos2(s.L)
SupportPos(s) == << RDiv(SupportPos2(s)[1], 2), RDiv(SupportPos2(s)[2], 2) >>

\* stance foot from which the j-th previewed step is made: alternates, starting with the foot
\* that supports the robot (the left one when leaving double support)
StanceOf(s, j) ==
  LET first == IF s.front.type = RSS THEN RSS ELSE LSS
      other == IF first = RSS THEN LSS ELSE RSS
  IN IF j % 2 = 1 THEN first ELSE other
KinOf(s, j) == IF StanceOf(s, j) = LSS THEN s.kinL ELSE s.kinR

\* support polygon at sample r, in the frame of the support the sample belongs to
Shift(poly, d) == {PAdd(p, d) : p \in Range(poly)}
FootPos(f) == << RDiv(f.x[1], 10), RDiv(f.y[1], 10) >>
CopPointsAt(s, r) ==
  LET t == TypeAt(s, r) IN
  IF t = LSS THEN Range(s.copL)
  ELSE IF t = RSS THEN Range(s.copR)
  ELSE \* double support: the hull of both soles at the place they will be
    LET l == FootPos(s.L)
        g == FootPos(s.R)
        land == << s.sx[1], s.sy[1] >>
        lp == IF s.front.type = RSS THEN land ELSE l
        rp == IF s.front.type = LSS THEN land ELSE g
        ref == IF s.front.type = RSS THEN lp
               ELSE IF s.front.type = LSS THEN rp
               ELSE IF s.move THEN lp ELSE SupportPos(s)
    IN Shift(s.copL, PClamp(PSub(lp, ref), 14000)) \cup Shift(s.copR, PClamp(PSub(rp, ref), 14000))

\* ------------------------------------------------------------------ calls -----------------
DoSetMove(s, b) == [s EXCEPT !.move = b]

\* changing the step period stretches or shrinks the single support in progress
CanSetStep(s, p) == s.front.type # DS => s.ttnp + p - s.stepP > 0
DoSetStep(s, p) ==
  IF s.front.type = DS THEN [s EXCEPT !.stepP = p]
  ELSE [s EXCEPT !.stepP = p, !.calm = FALSE, !.ttnp = @ + p - s.stepP, !.front.dur = @ + p - s.stepP]

CanSetDS(s, p) ==
  s.front.type = DS => (s.ttnp + p - s.dsP > 0 \/ (s.ttnp + p - s.dsP = 0 /\ s.nxt # << >>))
DoSetDS(s, p) ==
  IF s.front.type # DS THEN [s EXCEPT !.dsP = p]
  ELSE [s EXCEPT !.dsP = p, !.ttnp = @ + p - s.dsP, !.front.dur = @ + p - s.dsP]

\* the caller's variable holds the steps of the previous preview; the executed one is dropped
DropFirst(q) == IF Len(q) = 0 THEN q ELSE Tail(q)

RECURSIVE GrowSteps(_, _, _)
\* append steps until M of them are there: each at the centre of the reach polygon of its stance
GrowSteps(s, sx, sy) ==
  IF Len(sx) >= s.M THEN <<sx, sy>>
  ELSE LET j == Len(sx) + 1
           c2 == BBoxCentre2(Range(KinOf(s, j)))
           prev2 == IF j = 1 THEN SupportPos2(s) ELSE <<2 * sx[j - 1], 2 * sy[j - 1]>>
       IN GrowSteps(s, Append(sx, RDiv(prev2[1] + c2[1], 2)), Append(sy, RDiv(prev2[2] + c2[2], 2)))

\* updateTimeline
PhaseOver(s) == s.ttnp = 0
Advance(s) ==
  IF ~PhaseOver(s) THEN s
  ELSE LET landed == s.front.type # DS IN
       [s EXCEPT !.front = s.nxt, !.ttnp = s.nxt.dur, !.calm = TRUE,
                 !.sx = IF landed THEN DropFirst(@) ELSE @,
                 !.sy = IF landed THEN DropFirst(@) ELSE @]

DoUpdate(s, fb) ==
  LET a == [Advance(s) EXCEPT !.fb = fb]
      tl == Preview(a, a.front.type, FirstRow(a))
      m == Cardinality({i \in 1..Len(tl) : tl[i].landing})
      b == [a EXCEPT !.tl = tl, !.M = m,
                     !.nxt = IF tl = << >> THEN << >> ELSE [type |-> tl[1].type, dur |-> tl[1].dur]]
      kept == << SubSeq(a.sx, 1, GMin(m, Len(a.sx))), SubSeq(a.sy, 1, GMin(m, Len(a.sy))) >>
      g == GrowSteps(b, kept[1], kept[2])
  IN [b EXCEPT !.sx = g[1], !.sy = g[2]]

\* number of feedback periods until the next sample
CallsBeforeSample(s) == TimeToSample(s) \div s.fb

\* updateFeetStates: steps chosen by the optimisation, one feedback period elapses
FlyTime(s) == s.front.dur - s.K
Flying(s) == s.front.type # DS /\ s.ttnp <= FlyTime(s)

\* vertical motion: up to the maximum height during the first half of the flight, down to the
\* ground during the second half; one feedback period may straddle the apex.
\* (half ticks are used so that the apex is on the grid)
ZStep(z, h, ttnp2, half2, fb2) ==
  IF ttnp2 <= half2 THEN StepToRest(z, 0, ttnp2, fb2)
  ELSE LET up == ttnp2 - half2 IN
       IF fb2 <= up THEN StepToRest(z, h, up, fb2)
       ELSE StepToRest(<<h, 0, 0>>, 0, half2, fb2 - up)
\* <<p, v, a>> per tick <-> per half tick
ToHalf(z) == <<z[1], RDiv(z[2], 2), RDiv(z[3], 4)>>
FromHalf(z) == <<z[1], 2 * z[2], 4 * z[3]>>

MoveFoot(s, f, h, tx, ty, fb) ==
  [ x |-> StepToRest(f.x, 10 * tx, s.ttnp, fb),
    y |-> StepToRest(f.y, 10 * ty, s.ttnp, fb),
    z |-> FromHalf(ZStep(ToHalf(f.z), h, 2 * s.ttnp, FlyTime(s), 2 * fb)) ]

CanFeet(s, fb) == fb <= s.ttnp /\ (s.front.type # DS => s.M >= 1)
DoFeet(s, sx, sy, fb) ==
  LET a == [s EXCEPT !.sx = sx, !.sy = sy, !.ttnp = @ - fb] IN
  IF ~Flying(s) THEN a
  ELSE IF s.front.type = LSS
       THEN [a EXCEPT !.R = MoveFoot(s, s.R, s.hR, sx[1], sy[1], fb)]
       ELSE [a EXCEPT !.L = MoveFoot(s, s.L, s.hL, sx[1], sy[1], fb)]

\* ------------------------------------------------------------------ usage contract --------
\* Conditions under which the calls are documented to work: periods are multiples of the
\* sampling period, the horizon covers a step, the feedback period divides what is left.
PeriodOK(s, p) == p % s.K = 0 /\ p >= s.K
FbOK(s, fb) ==
  LET left == IF PhaseOver(s) THEN s.nxt.dur ELSE s.ttnp
  IN fb > 0 /\ s.K % fb = 0 /\ left % fb = 0 /\ (TimeToSample([s EXCEPT !.ttnp = left]) % fb = 0)
HorizonOK(s) ==
  /\ s.N * s.K >= s.stepP
  /\ s.front.type # DS => s.N * s.K >= s.ttnp
  /\ (s.nxt # << >> /\ s.ttnp = 0 /\ s.nxt.type # DS) => s.N * s.K >= s.nxt.dur

\* ------------------------------------------------------------------ design invariants -----
\* (checked by TLC on every reachable state of the bounded models)
PreviewOK(s) ==
  /\ s.M = Cardinality({StepAt(s, r) : r \in 0..(s.N - 1)} \ {0})
  /\ Len(s.sx) = s.M /\ Len(s.sy) = s.M
  /\ \A r \in 0..(s.N - 2) : StepAt(s, r + 1) \in {StepAt(s, r), StepAt(s, r) + 1}
  /\ \A r \in 0..(s.N - 1) : StepAt(s, r) \in 0..s.M
  \* two samples of the same step are supported by the same foot
  /\ \A r, q \in 0..(s.N - 1) :
        (StepAt(s, r) = StepAt(s, q) /\ TypeAt(s, r) # DS /\ TypeAt(s, q) # DS)
          => TypeAt(s, r) = TypeAt(s, q)
  \* consecutive previewed steps are made on alternating feet
  /\ \A i \in 1..(Len(s.tl) - 1) :
        (s.tl[i].type # DS /\ s.tl[i + 1].type # DS) => s.tl[i].type # s.tl[i + 1].type
  \* the stance foot of each previewed step is the foot in force just before its landing
  /\ \A i \in 1..Len(s.tl) : s.tl[i].landing =>
        LET j == StepAt(s, s.tl[i].row)
            before == IF i = 1 THEN s.front.type ELSE s.tl[i - 1].type
        IN before = StanceOf(s, j)
=============================================================================
