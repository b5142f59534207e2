------------------------------- MODULE MCFeet -------------------------------
(***************************************************************************)
(* Bounded exploration and history generation for FeetSupervisor.          *)
(*  - exhaustive (MCFeet.cfg): VIEW hides positions, so the reachable      *)
(*    schedule states are enumerated completely; every transition is       *)
(*    printed (EmitEdge) and later executed on the real code.              *)
(*  - random (-simulate, SimFeet.cfg): long histories with every setter    *)
(*    and random step choices, printed by EmitHist.                        *)
(***************************************************************************)
EXTENDS FeetSupervisor, Json

CONSTANTS Ns, Ks, StepMults, DSMults, Random, Depth, Emit
\* the whole controller (HumWalkgen) restarts its plan when the horizon changes: only at rest
CONSTANT Walk

VARIABLES st, pc, act, hist
vars == <<st, pc, act, hist>>

\* polygons (counter-clockwise, G units)
CopCat == { << <<-600, -300>>, <<800, -300>>, <<800, 300>>, <<-600, 300>> >>,
            << <<-500, -200>>, <<500, -400>>, <<900, 100>>, <<300, 500>>, <<-700, 200>> >>,
            << <<-400, -300>>, <<700, -200>>, <<100, 400>> >>,
            << <<-600, -100>>, <<-300, -350>>, <<800, -350>>, <<800, 150>>, <<500, 350>>, <<-600, 300>> >> }
KinLCat == { << <<-2000, -3600>>, <<2400, -3600>>, <<2400, -1600>>, <<-2000, -1600>> >>,
             << <<-1000, -4000>>, <<1600, -3000>>, <<2000, -1800>>, <<0, -1400>>, <<-2200, -2400>> >>,
             << <<-1500, -4000>>, <<2000, -2500>>, <<-500, -1500>> >> }
KinRCat == { << <<-2000, 1600>>, <<2400, 1600>>, <<2400, 3600>>, <<-2000, 3600>> >>,
             << <<-1200, 1400>>, <<2000, 1800>>, <<1800, 3200>>, <<-800, 4200>> >>,
             << <<-1500, 1800>>, <<0, 1400>>, <<2200, 1700>>, <<2200, 2900>>, <<500, 3900>>, <<-1500, 3000>> >> }
Pick(S) == IF Random THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
PolyPick(c) == Pick(c)

Start(N, K) ==
  [InitState(N, K) EXCEPT !.copL = PolyPick(CopCat), !.copR = PolyPick(CopCat),
     !.kinL = PolyPick(KinLCat), !.kinR = PolyPick(KinRCat),
     !.hL = 5000, !.hR = 4000,
     !.L = [NoFoot EXCEPT !.y = <<10000, 0, 0>>], !.R = [NoFoot EXCEPT !.y = <<-10000, 0, 0>>]]

Init == \E N \in Ns, K \in Ks :
  /\ st = Start(N, K)
  /\ HorizonOK(st)
  /\ pc = "idle"
  /\ act = << "reset", N, K, st.copL, st.copR, st.kinL, st.kinR >>
  /\ hist = << act >>

Do(a, s, p) == /\ act' = a /\ st' = s /\ pc' = p
               /\ hist' = IF Random THEN Append(hist, a) ELSE hist

Idle == pc = "idle"
\* (random histories) an action that is enabled now and then only
Rarely == RandomElement(1..6) = 1

\* repeated retiming of one flight: velocity and acceleration times the time left stay within
\* the range of the fixed point (4 m; see SClamp in Spline)
TameFoot(f, h) == \A q \in {f.x, f.y, f.z} :
  /\ (SAbs(q[2]) \div 10) * h <= 400000
  /\ (SAbs(q[3]) \div 100) * (h * h) <= 400000
Tame(s) == s.front.type # DS => TameFoot(s.L, s.ttnp) /\ TameFoot(s.R, s.ttnp)

SetMove == Idle /\ (Random => RandomElement(1..4) = 1) /\ \E b \in BOOLEAN : b # st.move
             /\ Do(<<"move", IF b THEN 1 ELSE 0>>, DoSetMove(st, b), "idle")
SetStep == Idle /\ (Random => Rarely) /\ \E m \in StepMults : LET p == m * st.K IN
             \* (a retimed flight is stretched at most threefold: keeps the fixed point in range)
             /\ st.front.type # DS => st.ttnp = 0 \/ st.ttnp + p - st.stepP <= 3 * st.ttnp
             /\ p # st.stepP /\ CanSetStep(st, p) /\ HorizonOK(DoSetStep(st, p)) /\ (Random => Tame(DoSetStep(st, p)))
             /\ Do(<<"step", p>>, DoSetStep(st, p), "idle")
SetDS   == Idle /\ (Random => Rarely) /\ \E m \in DSMults : LET p == m * st.K IN
             /\ p # st.dsP /\ CanSetDS(st, p)
             /\ Do(<<"ds", p>>, DoSetDS(st, p), "idle")
Update  == Idle /\ (st.ttnp = 0 => st.nxt # << >>) /\ \E fb \in 1..st.K :
             /\ FbOK(st, fb) /\ HorizonOK(st)
             /\ Do(<<"update", fb>>, DoUpdate(st, fb), "updated")

\* the optimisation may choose any steps; exhaustive mode keeps the previewed ones
Off == {-800, -300, 0, 200, 600}
Steps(q) == IF Random THEN [i \in 1..Len(q) |-> q[i] + RandomElement(Off)] ELSE q
Feet == pc = "updated" /\ CanFeet(st, st.fb)
             /\ \E sx \in {TLCEval(Steps(st.sx))}, sy \in {TLCEval(Steps(st.sy))} :
                   Do(<<"feet", st.fb, sx, sy>>, DoFeet(st, sx, sy, st.fb), "idle")

\* setters that do not touch the schedule (random histories only, now and then)
SetPoly == Random /\ Idle /\ Rarely /\
  \E cl \in {RandomElement(CopCat)}, cr \in {RandomElement(CopCat)},
     kl \in {RandomElement(KinLCat)}, kr \in {RandomElement(KinRCat)} :
     Do(<<"poly", cl, cr, kl, kr>>,
        [st EXCEPT !.copL = cl, !.copR = cr, !.kinL = kl, !.kinR = kr], "idle")
SetHeight == Random /\ Idle /\ Rarely /\ st.front.type = DS /\
  \E a \in {RandomElement({0, 3000, 8000})}, b \in {RandomElement({2000, 6000})} :
     Do(<<"height", a, b>>, [st EXCEPT !.hL = a, !.hR = b], "idle")
SetFeet == Random /\ Idle /\ Rarely /\ st.front.type = DS /\
  \E lx \in {RandomElement({-5000, 0, 12000})}, ly \in {RandomElement({8000, 11000})},
     rx \in {RandomElement({-3000, 0, 10000})}, ry \in {RandomElement({-9000, -12000})} :
     Do(<<"place", lx, ly, rx, ry>>,
        [st EXCEPT !.L = [NoFoot EXCEPT !.x = <<lx, 0, 0>>, !.y = <<ly, 0, 0>>],
                   !.R = [NoFoot EXCEPT !.x = <<rx, 0, 0>>, !.y = <<ry, 0, 0>>]], "idle")
SetN == Random /\ Idle /\ Rarely /\ (Walk => st.front.type = DS /\ st.M = 0 /\ ~st.move) /\
  \E n \in {RandomElement(Ns)} :
     LET s == [st EXCEPT !.N = n]
     IN HorizonOK(s) /\ Do(<<"N", n>>, s, "idle")

\* (values drawn at random are bound with \E: a LET would draw again at every use)
Next == SetMove \/ SetStep \/ SetDS \/ Update \/ Feet \/ SetPoly \/ SetHeight \/ SetFeet \/ SetN
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ views and output ------
View == << st.N, st.K, st.move, st.front, st.nxt, st.ttnp, st.stepP, st.dsP, pc,
           IF pc = "updated" THEN st.fb ELSE 0, Len(st.sx) >>
EmitEdge == Emit => PrintT("EDGE " \o ToJson([s |-> View, a |-> act', t |-> View']))
EmitInit == (Emit /\ TLCGet("level") = 1) => PrintT("INIT " \o ToJson([s |-> View, a |-> act]))
EmitHist == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

\* ------------------------------------------------------------------ design properties -----
TypeOK == /\ st.ttnp >= 0 /\ st.ttnp <= 1000
          /\ st.front.type \in {DS, LSS, RSS}
PreviewInv == pc = "updated" => PreviewOK(st)
\* phase order: see C01
PhaseOrder == [][ st'.front # st.front =>
     \/ /\ st'.front.type = st.front.type        \* duration changed by a setter, or DS -> DS
        /\ (st.ttnp = 0 => st.front.type = DS \/ st'.ttnp > 0)
     \/ /\ st.ttnp = 0
        /\ \/ st.front.type = DS /\ st'.front.type = LSS
           \/ st.front.type = LSS /\ st'.front.type \in {RSS, DS}
           \/ st.front.type = RSS /\ st'.front.type \in {LSS, DS} ]_vars
\* nothing but a landing changes which foot supports the robot; feet only move in flight
SupportFixed == [][ /\ (st.front.type # RSS /\ act'[1] = "feet") => st'.L = st.L
                    /\ (st.front.type # LSS /\ act'[1] = "feet") => st'.R = st.R ]_vars
\* touch-down: at the end of a single support the flying foot is at rest at the commanded step
Near1(a, b, t) == SAbs(a - b) <= t
Landed(f, tx, ty) ==
  /\ Near1(f.x[1], 10 * tx, 30) /\ Near1(f.y[1], 10 * ty, 30) /\ Near1(f.z[1], 0, 30)
  /\ Near1(f.x[2], 0, 60) /\ Near1(f.y[2], 0, 60) /\ Near1(f.z[2], 0, 60)
TouchDown == [][ (act'[1] = "feet" /\ st.front.type # DS /\ st'.ttnp = 0 /\ st.front.dur > st.K) =>
                   IF st.front.type = LSS THEN Landed(st'.R, st'.sx[1], st'.sy[1])
                   ELSE Landed(st'.L, st'.sx[1], st'.sy[1]) ]_vars
\* (retiming a step in flight may make the height overshoot: the spline is replanned from a
\* moving state over a shorter time; see DESIGN.md, C07)
HeightInv == st.calm =>
             /\ st.L.z[1] \in -30..(st.hL + 30)
             /\ st.R.z[1] \in -30..(st.hR + 30)
=============================================================================
