----------------------------- MODULE ZebWalkgen -----------------------------
(***************************************************************************)
(* The wheeled-base controller: a body of mass m whose CoM moves at height *)
(* h above a base of mass M and CoM height L, both driven by piecewise     *)
(* constant jerks.                                                         *)
(*                                                                         *)
(* Units: one tick is 1/8 s, lengths are counted in 1/64 m, heights in     *)
(* 1/16 m, gravity in 1/4 m/s^2, masses in kg.  An integrator state is     *)
(* <<6 p, 2 v, a>> and stays an exact integer under integer jerks (u,      *)
(* lengths per cubic tick) and integer durations.                          *)
(*                                                                         *)
(* Controller state: a record w of the current parameters, references,     *)
(* states and plan (X).  Each setter replaces one field; nothing else is   *)
(* remembered.  The quadratic program of a solve is a function of w:       *)
(*   feasible set  Limits(w, ...)   as half-spaces along a line of plans   *)
(*   cost          CostTable(w)     Hessian and gradient at the plan       *)
(*   tilt cost     TiltTable(w)     the same for the tilt objectives       *)
(* and a solve replaces the plan and advances the states (DoSolve).        *)
(***************************************************************************)
EXTENDS Costs, Geometry, Limits, TLC

ZStart == [N |-> 1, T |-> 8, h |-> 16, L |-> 0, m |-> 1, M |-> 0, g |-> <<0, 0, 32>>,
           cop |-> << >>, com |-> << >>, vl |-> 128, al |-> 64, jl |-> 8,
           wt |-> <<0, 0, 0, 0, 0, 0, 0>>, cfg |-> <<0, 0, 0, 0>>,
           vref |-> <<0, 0>>, pref |-> <<0, 0>>, cref |-> <<0, 0>>, cM |-> 0, mref |-> <<0, 0>>,
           yaw |-> <<0, 5>>, roll |-> <<0, 0>>, pitch |-> <<0, 0>>, dc |-> <<0, 0>>,
           c |-> << <<0, 0, 0>>, <<0, 0, 0>> >>, b |-> << <<0, 0, 0>>, <<0, 0, 0>> >>, X |-> <<0, 0, 0, 0>>]

Total(w) == w.m + w.M
\* ------------------------------------------------------------------ setters --------------
\* h / g in ticks^2 and h g_k / g_z in lengths are integers
GSig(w) == IF w.g[3] < 0 THEN -1 ELSE 1
GAbsZ(w) == GSig(w) * w.g[3]
Exact(w) == \A h \in {w.h, w.L} : /\ (16 * h) % GAbsZ(w) = 0
                                  /\ \A k \in 1..2 : (4 * h * GAbs(w.g[k])) % GAbsZ(w) = 0
ZRho(w, h) == GSig(w) * ((16 * h) \div GAbsZ(w))
Kap(w, h, k) == LET q == (4 * h * GAbs(w.g[k])) \div GAbsZ(w) IN IF w.g[k] >= 0 THEN GSig(w) * q ELSE -GSig(w) * q

\* a change of the horizon forgets the plan and the CoM reference; the other references have to
\* be given again
ZSetN(w, n) == [w EXCEPT !.N = n, !.X = [i \in 1..(4 * n) |-> 0], !.mref = [i \in 1..(2 * n) |-> 0],
                  !.vref = << >>, !.pref = << >>, !.cref = << >>, !.cM = 0]

\* CoP of a two-mass motion relative to the base, times 6 (m + M)
CopRel(w, k, c, b) ==
  w.m * (c[1] - 6 * ZRho(w, w.h) * c[3] - 6 * Kap(w, w.h, k))
  + w.M * (b[1] - 6 * ZRho(w, w.L) * b[3] - 6 * Kap(w, w.L, k)) - Total(w) * b[1]
\* references given as a motion: CoM and base positions and accelerations
WorldCop(w, cp, ca, bp, ba) ==
  [i \in 1..(2 * w.N) |-> CopRel(w, IF i <= w.N THEN 1 ELSE 2, <<6 * cp[i], 0, ca[i]>>, <<6 * bp[i], 0, ba[i]>>)]
ZSetWorld(w, cp, ca, bp, ba) ==
  [w EXCEPT !.cref = WorldCop(w, cp, ca, bp, ba), !.cM = Total(w), !.mref = [i \in 1..(2 * w.N) |-> cp[i] - bp[i]]]
\* CoP reference times 6 (m + M)
CopRef(w, i) == IF w.cM = 0 THEN 6 * Total(w) * w.cref[i] ELSE w.cref[i]

Ready(w) ==
  /\ Len(w.vref) = 2 * w.N /\ Len(w.pref) = 2 * w.N /\ Len(w.cref) = 2 * w.N /\ Len(w.mref) = 2 * w.N
  /\ w.cM \in {0, Total(w)} /\ Exact(w)
  /\ \E i \in 1..7 : w.wt[i] > 0
  \* exact and tilt costs are judged in different arithmetics
  /\ (\E i \in 1..5 : w.wt[i] > 0) => (w.wt[6] = 0 /\ w.wt[7] = 0)

\* ------------------------------------------------------------------ prediction -----------
\* the part of a plan that drives the CoM (q = 0) or the base (q = 1) along axis k
Part(w, u, q, k) == SubSeq(u, (2 * q + k - 1) * w.N + 1, (2 * q + k) * w.N)
CTraj(w, u, k) == Roll(w.c[k], Part(w, u, 0, k), w.T, w.T)
BTraj(w, u, k) == Roll(w.b[k], Part(w, u, 1, k), w.T, w.T)
Still == <<0, 0, 0>>
\* unit plans of one axis: 1..N drive the CoM, N+1..2N the base
DirC(w, j) == Roll(Still, IF j <= w.N THEN UnitJ(w.N, j) ELSE Zeros(w.N), w.T, w.T)
DirB(w, j) == Roll(Still, IF j > w.N THEN UnitJ(w.N, j - w.N) ELSE Zeros(w.N), w.T, w.T)

\* ------------------------------------------------------------------ cost -----------------
\* one-axis tables times (m + M)^2; weights <<velocity, position, jerk, CoP, CoM>>
AxisTable(w, k) ==
  LET N == w.N
      n == 2 * N
      tm == Total(w)
      dc == TLCEval([j \in 1..n |-> DirC(w, j)])
      db == TLCEval([j \in 1..n |-> DirB(w, j)])
      w0 == [w EXCEPT !.g[k] = 0]
      one == [i \in 1..N |-> 1]
      V == TLCEval([j \in 1..n |-> [i \in 1..N |-> db[j][i][2]]])
      P == TLCEval([j \in 1..n |-> [i \in 1..N |-> db[j][i][1]]])
      J == [j \in 1..n |-> [i \in 1..n |-> IF i = j THEN 1 ELSE 0]]
      C == TLCEval([j \in 1..n |-> [i \in 1..N |-> CopRel(w0, k, dc[j][i], db[j][i])]])
      D == TLCEval([j \in 1..n |-> [i \in 1..N |-> dc[j][i][1] - db[j][i][1]]])
      c == CTraj(w, w.X, k)
      b == BTraj(w, w.X, k)
      x == Part(w, w.X, 0, k) \o Part(w, w.X, 1, k)
      r(q, i) == q[(k - 1) * N + i]
      eV == TLCEval([i \in 1..N |-> b[i][2] - r(w.vref, i)])
      eP == TLCEval([i \in 1..N |-> b[i][1] - 6 * r(w.pref, i)])
      eC == TLCEval([i \in 1..N |-> CopRel(w, k, c[i], b[i]) - CopRef(w, (k - 1) * N + i)])
      eD == TLCEval([i \in 1..N |-> tm * (c[i][1] - b[i][1] - 6 * r(w.mref, i))
                            - 6 * (w.m * Kap(w, w.h, k) + w.M * Kap(w, w.L, k))])
      sum(v, p, j, cc, d) == tm * tm * (w.wt[1] * v + w.wt[2] * p + w.wt[3] * j) + w.wt[4] * cc + w.wt[5] * d
      \* only what has a weight is computed
      dot(q, a, e) == IF w.wt[q] = 0 THEN 0 ELSE WDot([i \in 1..Len(a) |-> 1], a, e)
  IN TLCEval([ H |-> [i \in 1..n |-> [j \in 1..n |-> sum(dot(1, V[i], V[j]), dot(2, P[i], P[j]), dot(3, J[i], J[j]),
                                                 dot(4, C[i], C[j]), tm * tm * dot(5, D[i], D[j]))]],
       g |-> [i \in 1..n |-> sum(dot(1, V[i], eV), dot(2, P[i], eP), dot(3, J[i], x),
                                 dot(4, C[i], eC), tm * dot(5, D[i], eD))] ])

\* ------------------------------------------------------------------ tilt -----------------
(***************************************************************************)
(* The tilt angle psi of the robot tipping about its contact point obeys   *)
(*   A1 psi - A6 psi'' = - m h c'' - M L d'' + m g (c - d) - M g e         *)
(* with A1 = g (m h + M L), A6 = m h^2 + M L^2, e the contact point in the *)
(* frame of the base and g = 9.81: the equation documented in the source,  *)
(* psi counted positive backwards.  Its acceleration is constant over an   *)
(* interval and the equation holds at the end of every interval.           *)
(* Angles in 1e-5 / q rad.                                                 *)
(***************************************************************************)
S1(w) == w.m * w.h + w.M * w.L
S2(w) == w.m * w.h * w.h + w.M * w.L * w.L
\* 204800 (A6 - A1 T^2 / 2)
TiltDen(w) == 800 * S2(w) - 981 * S1(w) * w.T * w.T
TiltOK(w) == TiltDen(w) > 250 * S2(w) /\ TiltDen(w) > 100000
\* 38400 times the right-hand side
TiltForce(w, c, b, e) == -2400 * (w.m * w.h * c[3] + w.M * w.L * b[3]) + 981 * w.m * (c[1] - b[1]) - 5886 * w.M * e
RECURSIVE Tilt(_, _, _, _, _, _)
Tilt(w, q, x, cs, bs, e) ==
  IF cs = << >> THEN << >>
  ELSE LET P == x[1] + ZRDiv(x[2] * w.T, 8)
           f == TiltForce(w, Head(cs), Head(bs), e)
           den == TiltDen(w)
           a == ZMul(125568, P * S1(w), den) - ZMul(200000 * q, 8 * f, 3 * den)
           y == << P + ZRDiv(a * w.T * w.T, 128), x[2] + ZRDiv(a * w.T, 8) >>
       IN << y >> \o Tilt(w, q, y, Tail(cs), Tail(bs), e)
RECURSIVE MDot(_, _, _)
MDot(a, b, i) == IF i = 0 THEN 0 ELSE ZMul(a[i], b[i], 100000) + MDot(a, b, i - 1)
TiltTable(w, k) ==
  LET N == w.N
      n == 2 * N
      u(q) == TLCEval([j \in 1..n |-> Tilt(w, q, <<0, 0>>, DirC(w, j), DirB(w, j), 0)])
      \* the tilts of unit plans in a unit that makes the largest one that matters about 100000
      d1 == u(1)
      q0 == CHOOSE v \in {100000 \div (1 + MaxAbs({ GAbs(d1[j][i][a]) : j \in 1..n, i \in 1..N, a \in { b \in 1..2 : w.wt[5 + b] > 0} }))} : TRUE
      f == GMax(1, GMin(100, q0))
      d == u(f)
      x == IF k = 1 THEN w.roll ELSE w.pitch
      y == Tilt(w, 1, << 100 * x[1], 100 * x[2] >>, CTraj(w, w.X, k), BTraj(w, w.X, k), w.dc[k])
      q(t, a, m) == [i \in 1..N |-> m * t[i][a]]
      cost(s, t, m) == (IF w.wt[6] = 0 THEN 0 ELSE w.wt[6] * MDot(q(s, 1, 1), q(t, 1, m), N))
                       + (IF w.wt[7] = 0 THEN 0 ELSE w.wt[7] * MDot(q(s, 2, 1), q(t, 2, m), N))
  IN [ H |-> [i \in 1..n |-> [j \in 1..n |-> cost(d[i], d[j], 1)]], g |-> [i \in 1..n |-> cost(d[i], y, f)] ]

\* the tables of both axes put together, in the order of the plan
Tables(w) ==
  LET N == w.N
      t == TLCEval([k \in 1..2 |-> IF w.wt[6] = 0 /\ w.wt[7] = 0 THEN AxisTable(w, k) ELSE TiltTable(w, k)])
      ax(i) == 1 + (((i - 1) \div N) % 2)
      ix(i) == 1 + ((i - 1) % N) + (IF i > 2 * N THEN N ELSE 0)
  IN [ H |-> [i \in 1..(4 * N) |-> [j \in 1..(4 * N) |-> IF ax(i) # ax(j) THEN 0 ELSE t[ax(i)].H[ix(i)][ix(j)]]],
       g |-> [i \in 1..(4 * N) |-> t[ax(i)].g[ix(i)]] ]

\* ------------------------------------------------------------------ feasible set ---------
Line(w, u, d) ==
  LET wd == [w EXCEPT !.c = <<Still, Still>>, !.b = <<Still, Still>>] IN
  [ c |-> [k \in 1..2 |-> CTraj(w, u, k)], b |-> [k \in 1..2 |-> BTraj(w, u, k)],
    dc |-> [k \in 1..2 |-> CTraj(wd, d, k)], db |-> [k \in 1..2 |-> BTraj(wd, d, k)], u |-> u, d |-> d ]
\* P + t D inside the polygon with edges E, both times s; sig = -1: its reflection through the origin
PolyLimits(E, s, P, D, sig) ==
  { << (e[2][1] - e[1][1]) * (sig * P[2] - s * e[1][2]) - (e[2][2] - e[1][2]) * (sig * P[1] - s * e[1][1]),
       sig * ((e[2][1] - e[1][1]) * D[2] - (e[2][2] - e[1][2]) * D[1]) >> : e \in E }
CopLimits(w, ln, sig) ==
  LET E == HullEdges(Range(w.cop))
      w0 == [w EXCEPT !.g = <<0, 0, w.g[3]>>]
  IN UNION {PolyLimits(E, 6 * Total(w),
       << CopRel(w, 1, ln.c[1][i], ln.b[1][i]), CopRel(w, 2, ln.c[2][i], ln.b[2][i]) >>,
       << CopRel(w0, 1, ln.dc[1][i], ln.db[1][i]), CopRel(w0, 2, ln.dc[2][i], ln.db[2][i]) >>, sig) : i \in 1..w.N}
ComLimits(w, ln, sig) ==
  LET E == HullEdges(Range(w.com))
  IN UNION {PolyLimits(E, 6,
       << ln.c[1][i][1] - ln.b[1][i][1], ln.c[2][i][1] - ln.b[2][i][1] >>,
       << ln.dc[1][i][1] - ln.db[1][i][1], ln.dc[2][i][1] - ln.db[2][i][1] >>, sig) : i \in 1..w.N}
MotionLimits(w, ln) ==
  UNION {Within(w.vl, ln.b[k][i][2], ln.db[k][i][2]) \cup Within(w.al, ln.b[k][i][3], ln.db[k][i][3]) : i \in 1..w.N, k \in 1..2}
JerkLimits(w, ln) == UNION {Within(w.jl, ln.u[i], ln.d[i]) : i \in (2 * w.N + 1)..(4 * w.N)}
\* no velocity across the heading (yaw: sine and cosine times 5)
TiltLimits(w, ln) ==
  LET zero(x, y, dx, dy) == Within(0, w.yaw[1] * x - w.yaw[2] * y, w.yaw[1] * dx - w.yaw[2] * dy)
  IN UNION { zero(ln.c[1][i][2], ln.c[2][i][2], ln.dc[1][i][2], ln.dc[2][i][2])
             \cup zero(ln.b[1][i][2], ln.b[2][i][2], ln.db[1][i][2], ln.db[2][i][2]) : i \in 1..w.N }
ProgramLimits(w, ln, sig) ==
  (IF w.cfg[1] = 1 /\ w.cop # << >> THEN CopLimits(w, ln, sig) ELSE {})
  \cup (IF w.cfg[2] = 1 /\ w.com # << >> THEN ComLimits(w, ln, sig) ELSE {})
  \cup (IF w.cfg[3] = 1 THEN MotionLimits(w, ln) \cup JerkLimits(w, ln) ELSE {})
  \cup (IF w.cfg[4] = 1 THEN TiltLimits(w, ln) ELSE {})

\* ------------------------------------------------------------------ a solve --------------
DoSolve(w, plan, fb) ==
  [w EXCEPT !.X = plan,
     !.c = [k \in 1..2 |-> Integrate(w.c[k], plan[(k - 1) * w.N + 1], fb)],
     !.b = [k \in 1..2 |-> Integrate(w.b[k], plan[(k + 1) * w.N + 1], fb)]]

\* ------------------------------------------------------------------ calls ----------------
\* the controller after a call that is not a solve; a is the call's argument list
ZCall(w, op, a) ==
  CASE op = "reset" -> ZStart
    [] op = "N" -> ZSetN(w, a[1])
    [] op = "T" -> [w EXCEPT !.T = a[1]]
    [] op = "g" -> [w EXCEPT !.g = a]
    [] op = "h" -> [w EXCEPT !.h = a[1]]
    [] op = "L" -> [w EXCEPT !.L = a[1]]
    [] op = "m" -> [w EXCEPT !.m = a[1]]
    [] op = "M" -> [w EXCEPT !.M = a[1]]
    [] op \in {"cop", "copHull"} -> [w EXCEPT !.cop = a[1]]
    [] op \in {"com", "comHull"} -> [w EXCEPT !.com = a[1]]
    [] op = "vl" -> [w EXCEPT !.vl = a[1]]
    [] op = "al" -> [w EXCEPT !.al = a[1]]
    [] op = "jl" -> [w EXCEPT !.jl = a[1]]
    [] op = "wt" -> [w EXCEPT !.wt = a]
    [] op = "cfg" -> [w EXCEPT !.cfg = a]
    [] op = "vref" -> [w EXCEPT !.vref = a]
    [] op = "pref" -> [w EXCEPT !.pref = a]
    [] op = "cref" -> [w EXCEPT !.cref = a, !.cM = 0]
    [] op = "mref" -> [w EXCEPT !.mref = a]
    [] op = "world" -> ZSetWorld(w, a[1], a[2], a[3], a[4])
    [] op = "bx" -> [w EXCEPT !.b[1] = a]
    [] op = "by" -> [w EXCEPT !.b[2] = a]
    [] op = "cx" -> [w EXCEPT !.c[1] = a]
    [] op = "cy" -> [w EXCEPT !.c[2] = a]
    [] op = "pose" -> [w EXCEPT !.c = << <<a[1], a[2], a[3]>>, <<a[4], a[5], a[6]>> >>, !.b = << <<a[7], a[8], a[9]>>, <<a[10], a[11], a[12]>> >>]
    [] op = "roll" -> [w EXCEPT !.roll = a]
    [] op = "pitch" -> [w EXCEPT !.pitch = a]
    [] op = "yaw" -> [w EXCEPT !.yaw = a]
    [] op = "dx" -> [w EXCEPT !.dc[1] = a[1]]
    [] op = "dy" -> [w EXCEPT !.dc[2] = a[1]]
=============================================================================
