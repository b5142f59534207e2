------------------------------- MODULE MCZeb --------------------------------
(***************************************************************************)
(* Histories of the wheeled-base controller: the setters in every order,   *)
(* repeated with old and new values, between solves whose answers are      *)
(* arbitrary plans.  Facts about the specified program are checked in the  *)
(* states that are visited.                                                *)
(***************************************************************************)
EXTENDS ZebWalkgen, Json, TLC
CONSTANTS Depth, Emit,
          Focus     \* what the histories are rich in: "all", "rows", "motion", "cost", "tilt"
VARIABLES w, todo, hist
vars == <<w, todo, hist>>

\* ------------------------------------------------------------------ values ---------------
Singles == { <<1, 0, 0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0>> }
Mixed == { <<1, 1, 1, 1, 1, 0, 0>>, <<2, 0, 50, 1, 0, 0, 0>>, <<0, 1, 100, 0, 2, 0, 0>> }
Tilts == { <<0, 0, 0, 0, 0, 1, 0>>, <<0, 0, 0, 0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 2, 1>> }
Weights7 == CASE Focus = "tilt" -> Tilts
              [] Focus = "cost" -> Singles \cup Mixed
              [] Focus \in {"rows", "motion"} -> { <<0, 0, 1, 0, 0, 0, 0>> }
              [] OTHER -> Singles \cup Mixed \cup Tilts
Configs == CASE Focus = "rows" -> { <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 1, 0, 0>> }
             [] Focus = "motion" -> { <<0, 0, 1, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 1>> }
             [] Focus = "cost" -> { <<0, 0, 0, 0>>, <<0, 0, 1, 0>> }
             [] Focus = "tilt" -> { <<0, 0, 0, 0>> }
             [] OTHER -> { <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, 0, 1, 0>>, <<1, 1, 1, 0>>,
                            <<0, 1, 1, 1>>, <<1, 1, 1, 1>> }
Polys == { << <<-40, -30>>, <<40, -30>>, <<40, 30>>, <<-40, 30>> >>, << <<50, 0>>, <<0, 60>>, <<-50, 0>>, <<0, -60>> >>,
           << <<-30, -30>>, <<50, -20>>, <<10, 55>> >>, << <<-25, -40>>, <<30, -45>>, <<60, 5>>, <<20, 40>>, <<-35, 20>> >>,
           << <<60, 40>>, <<-60, 40>>, <<0, -50>> >>, << <<-20, -60>>, <<55, -60>>, <<55, 15>>, <<-20, 15>>, <<0, 0>> >> }
Yaws == { <<0, 5>>, <<5, 0>>, <<3, 4>>, <<-4, 3>>, <<0, -5>> }
Rnd(lo, hi) == RandomElement(lo..hi)
Vec(n, lo, hi) == [i \in 1..n |-> Rnd(lo, hi)]
State3(n) == << n * Rnd(-6, 6), 2 * Rnd(-3, 3), Rnd(-1, 1) >>
\* all four states: at rest with the CoP (or the CoM) over the base, or moving along the heading
RestOf(v) ==
  LET cop == w.cfg[1] = 1
      off(k) == IF cop THEN 6 * ZRDiv(w.m * Kap(w, w.h, k) + w.M * Kap(w, w.L, k), w.m) ELSE 0
      q(k) == << 6 * v[k] + off(k) + 6 * v[k + 2], 0, 0 >>
  IN q(1) \o q(2) \o << 6 * v[1], 0, 0, 6 * v[2], 0, 0 >>
AlongOf(k, x) ==
  LET q(t, i, n) == << 6 * x[n], 2 * t * k[i], t * k[i + 1] >>
  IN q(w.yaw[2], 1, 1) \o q(w.yaw[1], 1, 2) \o q(w.yaw[2], 3, 3) \o q(w.yaw[1], 3, 4)
Rest == CHOOSE y \in { RestOf(v) : v \in { << Rnd(-20, 20), Rnd(-20, 20), Rnd(-6, 6), Rnd(-6, 6) >> } } : TRUE
Along == CHOOSE y \in { AlongOf(k, x) : k \in { << Rnd(-2, 2), Rnd(-1, 1), Rnd(-2, 2), Rnd(-1, 1) >> }, x \in {Vec(4, -6, 6)} } : TRUE
\* lines of plans along which the feasible set is observed
Heading(s) == [i \in 1..(4 * w.N) |->
   LET q == IF i <= w.N THEN i ELSE IF i <= 3 * w.N THEN i - w.N ELSE i - 2 * w.N
   IN s[q] * (IF ((i - 1) \div w.N) % 2 = 0 THEN w.yaw[2] ELSE w.yaw[1])]
ProbeOf(kind, s, d, k, x) ==
  LET n == 4 * w.N
      along == Heading(s)
  IN CASE kind = 1 -> << x, d >>
       [] kind = 2 -> << [i \in 1..n |-> k * d[i]], d >>
       [] kind = 3 -> << [i \in 1..n |-> along[i] + k * d[i]], d >>
       [] kind = 4 -> << [i \in 1..n |-> along[i] - x[i] + k * d[i]], along >>
Dir(n) == CASE Rnd(1, 4) > 1 -> Vec(n, -3, 3) [] OTHER -> [i \in 1..n |-> RandomElement({0, 0, 0, 1, -2})]
Probe(kind) ==
  LET n == 4 * w.N IN
  CHOOSE v \in { ProbeOf(q, s, d, k, x) : q \in {kind}, s \in {Vec(2 * w.N, -1, 1)}, d \in {Dir(n)}, k \in {Rnd(-2, 2)}, x \in {Vec(n, -2, 2)} } : TRUE
Args(op) ==
  CASE op = "N" -> << IF Rnd(1, 6) = 1 THEN Rnd(5, 8) ELSE Rnd(1, 4) >>
    [] op = "T" -> << RandomElement({1, 2, 3}) >>
    [] op = "g" -> << 2 * Rnd(-5, 5), 2 * Rnd(-5, 5), RandomElement({16, 32, 64, -32}) >>
    [] op = "h" -> << RandomElement({8, 16, 24, 32}) >>
    [] op = "L" -> << RandomElement({0, 8, 16}) >>
    [] op \in {"m", "M"} -> << Rnd(1, 3) >>
    [] op \in {"cop", "com", "copHull", "comHull"} -> << RandomElement(Polys) >>
    [] op = "vl" -> << Rnd(4, 40) >>
    [] op = "al" -> << Rnd(1, 12) >>
    [] op = "jl" -> << Rnd(1, 8) >>
    [] op = "wt" -> RandomElement(Weights7) \o << RandomElement({0, -9, -26, 4}) >>     \* and a common power of two
    [] op = "cfg" -> RandomElement(Configs)
    [] op = "pose" -> IF Rnd(1, 2) = 1 THEN Rest ELSE Along
    [] op = "vref" -> Vec(2 * w.N, -20, 20)
    [] op \in {"pref", "cref", "mref"} -> Vec(2 * w.N, -30, 30)
    [] op = "world" -> << Vec(2 * w.N, -20, 20), Vec(2 * w.N, -3, 3), Vec(2 * w.N, -20, 20), Vec(2 * w.N, -3, 3) >>
    [] op \in {"bx", "by", "cx", "cy"} -> State3(6)
    [] op \in {"roll", "pitch"} -> << Rnd(-300, 300), Rnd(-300, 300) >>
    [] op = "yaw" -> RandomElement(Yaws)
    [] op \in {"dx", "dy"} -> << Rnd(-20, 20) >>

Setters == {"T", "g", "h", "L", "m", "M", "cop", "com", "copHull", "comHull", "vl", "al", "jl", "wt", "cfg", "vref", "pref", "cref", "mref",
            "bx", "by", "cx", "cy", "roll", "pitch", "yaw", "dx", "dy"}
Refs == {"vref", "pref", "cref", "mref"}
\* parameters and states the controller has a default for that is specified (ZStart)
HasDefault == {"N", "T", "h", "L", "m", "M", "vref", "pref", "cref", "mref", "bx", "by", "cx", "cy", "roll", "pitch", "yaw", "dx", "dy",
               "cop", "com", "copHull", "comHull", "cfg"}

Init == w = ZStart /\ todo = Setters \cup {"N"} /\ hist = << <<"reset">> >>
Small == \A k \in 1..2 : \A x \in {w.c[k], w.b[k]} : GAbs(x[1]) <= 400 /\ GAbs(x[2]) <= 40 /\ GAbs(x[3]) <= 9
CanSolve == /\ todo = {} /\ Ready(w) /\ Small
            /\ (w.wt[6] > 0 \/ w.wt[7] > 0) => (TiltOK(w) /\ w.N * w.T <= 5)
            /\ w.N * w.T <= 9
\* (random values are bound by quantifiers, which TLC evaluates once)
Set(op) == \E a \in {Args(op)} :
  /\ w' = ZCall(w, op, a)
  /\ hist' = Append(hist, <<op>> \o a)
  /\ todo' = (todo \ {op}) \cup (IF op = "N" THEN Refs ELSE {})
               \cup (IF op \in {"m", "M"} /\ todo = {} /\ w.cM # 0 THEN {"cref"} ELSE {})
\* the initial configuration: the setters in a random order, a few of them twice, and some of those
\* that have a default left out
Default == todo # {} /\ w.N = 1 /\ Rnd(1, 4) = 1 /\ \E op \in {RandomElement(HasDefault)} :
             op \in todo /\ todo' = todo \ {op} /\ UNCHANGED <<w, hist>>
Configure == todo # {} /\ \E op \in {RandomElement(todo)} : Set(op)
Again == /\ todo # {} /\ Rnd(1, 6) = 1 /\ \E op \in {RandomElement(Setters \ Refs)} : Set(op)
Change == todo = {} /\ \E op \in {RandomElement(Setters \cup {"N", "world"})} : Set(op)
World == todo = {} /\ Rnd(1, 8) = 1 /\ Set("world")
Freeze == todo = {} /\ ~Small /\ \E op \in {"bx", "by", "cx", "cy"} : Set(op)
Pose == todo = {} /\ Set("pose")
Solve(i) ==
  /\ CanSolve
  /\ \E plan \in {Vec(4 * w.N, -3, 3)}, fb \in {RandomElement({1, 1, 2, 3})}, code \in {IF Rnd(1, 40) = 1 THEN 0 ELSE 1},
        p1 \in {Probe(IF w.cfg[4] = 1 THEN 3 ELSE 2)}, p2 \in {Probe(IF w.cfg[4] = 1 THEN Rnd(3, 4) ELSE 2)}, p3 \in {Probe(Rnd(1, 4))} :
       /\ w' = DoSolve(w, plan, fb)
       /\ hist' = Append(hist, <<"solve", fb, code, plan, IF w.cfg = <<0, 0, 0, 0>> THEN << >> ELSE <<p1, p2, p3>> >>)
       /\ UNCHANGED todo
Next == Configure \/ Default \/ Again \/ Change \/ World \/ Freeze \/ Pose \/ \E i \in 1..3 : Solve(i)
Spec == Init /\ [][Next]_vars
EmitHist == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

\* ------------------------------------------------------------------ facts ----------------
Unit(n, j) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
\* the gradient is the derivative of a quadratic cost with the Hessian, which is symmetric
Now == todo = {} /\ TLCGet("level") % 5 = 0
TableInv ==
  Now /\ CanSolve /\ w.wt[6] = 0 /\ w.wt[7] = 0 =>
    LET t == TLCEval(Tables(w)) IN
    /\ \A i, j \in 1..(4 * w.N) : t.H[i][j] = t.H[j][i]
    /\ \A i \in 1..(4 * w.N) : t.H[i][i] >= 0
    /\ LET j == 1 + (TLCGet("level") % (4 * w.N))
           u == TLCEval(Tables([w EXCEPT !.X[j] = @ + 1]))
       IN u.H = t.H /\ \A i \in 1..(4 * w.N) : u.g[i] - t.g[i] = t.H[i][j]
\* a reference in the world frame taken from a predicted motion is the CoP of that motion
WorldInv ==
  Now => LET n == 2 * w.N
      q(x) == TLCEval([i \in 1..n |-> x[1 + (i - 1) \div w.N][1 + ((i - 1) % w.N)]])
      cp == q(TLCEval([k \in 1..2 |-> CTraj(w, w.X, k)]))
      bp == q(TLCEval([k \in 1..2 |-> BTraj(w, w.X, k)]))
      IN (Exact(w) /\ \A i \in 1..n : cp[i][1] % 6 = 0 /\ bp[i][1] % 6 = 0) =>
           LET v == ZSetWorld(w, [i \in 1..n |-> cp[i][1] \div 6], [i \in 1..n |-> cp[i][3]],
                                 [i \in 1..n |-> bp[i][1] \div 6], [i \in 1..n |-> bp[i][3]])
           IN \A k \in 1..2 : LET g == AxisTable([v EXCEPT !.wt = <<0, 0, 0, 1, 0, 0, 0>>], k).g
                               IN \A i \in 1..n : g[i] = 0
\* the tilt obeys its equation at the end of every interval
TiltInv ==
  (Now /\ CanSolve /\ w.wt[6] + w.wt[7] > 0) =>
    \A k \in 1..2 :
      LET c == CTraj(w, w.X, k)
          b == BTraj(w, w.X, k)
          y == Tilt(w, 1, <<10000, -2000>>, c, b, w.dc[k])
      IN \A i \in 1..w.N :
           LET v0 == IF i = 1 THEN -2000 ELSE y[i - 1][2]
               a == ZRDiv(8 * (y[i][2] - v0), w.T)
               f == ZMul(100000, TiltForce(w, c[i], b[i], w.dc[k]), 38400)
               lhs == ZMul(y[i][1], 981 * S1(w), 1600) - ZMul(a, S2(w), 256)
           IN GAbs(lhs - f) <= 200 + 40 * (S1(w) + S2(w) \div 64)
\* a plan on the line satisfies the limits exactly when its parameter is in the segment
SegmentInv ==
  (Now /\ CanSolve) => LET u == w.X
          d == [i \in 1..(4 * w.N) |-> ((i * 7) % 5) - 2]
          S == ProgramLimits(w, Line(w, u, d), 1)
          s == Segment(S, 0)
      IN /\ (\A x \in S : x[1] >= 0) = (~s.none /\ s.lo <= 0 /\ s.hi >= 0)
         /\ (\A x \in S : x[1] + x[2] >= 0) = (~s.none /\ s.lo <= 1000 /\ s.hi >= 999 /\ (\A x \in S : x[1] + x[2] >= 0))
PlanInv == Len(w.X) = 4 * w.N
=============================================================================
