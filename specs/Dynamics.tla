------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* Prediction by repeated integration of a piecewise constant jerk, in     *)
(* exact integer arithmetic.  Time unit: one tick (2^-5 s).                *)
(* An integrator state is <<6 p, 2 v, a>> per tick powers.                 *)
(*                                                                         *)
(* The model objects (inverted pendulum, wheeled base, plain integrator)   *)
(* are records of parameters; every setter is a function on the record.    *)
(* A model created without automatic computation keeps the dynamics of     *)
(* the parameters of its last computation (field `done`).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* one interval of length d under the jerk j
Integrate(x, j, d) ==
  << x[1] + 3 * x[2] * d + 3 * x[3] * d * d + j * d * d * d,
     x[2] + 2 * x[3] * d + j * d * d,
     x[3] + j * d >>

\* states at the samples 1..Len(js); the first interval lasts first, the others T
RECURSIVE Roll(_, _, _, _)
Roll(x, js, first, T) ==
  IF js = << >> THEN << >>
  ELSE LET y == Integrate(x, Head(js), first) IN << y >> \o Roll(y, Tail(js), T, T)

Unit3(k) == << IF k = 1 THEN 6 ELSE 0, IF k = 2 THEN 2 ELSE 0, IF k = 3 THEN 1 ELSE 0 >>
UnitJ(N, j) == [i \in 1..N |-> IF i = j THEN 1 ELSE 0]
Zeros(N) == [i \in 1..N |-> 0]

\* columns of S and U as trajectories of states
SCols(N, first, T) == [k \in 1..3 |-> Roll(Unit3(k), Zeros(N), first, T)]
UCols(N, first, T) == [j \in 1..N |-> Roll(<<0, 0, 0>>, UnitJ(N, j), first, T)]

\* predicted quantities of one integrator state, with the scale in the comment
YPos(x) == x[1]                     \* 6 p
YVel(x) == 3 * x[2]                 \* 6 v
YAcc(x) == 6 * x[3]                 \* 6 a
\* 6 M (m / M) (p - h/g a) with rho = h / (g tick^2)
YCop(x, m, rho) == m * (x[1] - 6 * rho * x[3])

\* second order (angle driven by its acceleration): <<2 p, v>>
Integrate2(x, a, d) == << x[1] + 2 * x[2] * d + a * d * d, x[2] + a * d >>
RECURSIVE Roll2(_, _, _, _)
Roll2(x, as, first, T) ==
  IF as = << >> THEN << >>
  ELSE LET y == Integrate2(x, Head(as), first) IN << y >> \o Roll2(y, Tail(as), T, T)
Unit2(k) == << IF k = 1 THEN 2 ELSE 0, IF k = 2 THEN 1 ELSE 0 >>
SCols2(N, first, T) == [k \in 1..2 |-> Roll2(Unit2(k), Zeros(N), first, T)]
UCols2(N, first, T) == [j \in 1..N |-> Roll2(<<0, 0>>, UnitJ(N, j), first, T)]
Y2Pos(x) == 3 * x[1]                \* 6 angle
Y2Vel(x) == 6 * x[2]                \* 6 angular velocity

\* ------------------------------------------------------------------ model objects ---------
\* T, fb: ticks; h: 1/16 m; g: <<gx, gy, gz>> in 1/4 m/s^2; masses in kg (integers)
Params(N, T) == [N |-> N, T |-> T, fb |-> T, h |-> 16, g |-> << 0, 0, 32 >>, m |-> 1, M |-> 1]
Model(kind, N, T, auto) ==
  LET p == IF kind = "base" THEN [Params(N, T) EXCEPT !.h = 0, !.m = 0] ELSE Params(N, T)
  IN [kind |-> kind, auto |-> auto, p |-> p, done |-> p, ready |-> auto]
\* rho = (h/16) / ((gz/4) (1/32)^2) = 256 h / gz
GSign(p) == IF p.g[3] < 0 THEN -1 ELSE 1
Rho(p) == GSign(p) * ((256 * p.h) \div (GSign(p) * p.g[3]))
RhoExact(p) == (256 * p.h) % (GSign(p) * p.g[3]) = 0

Computed(s) == IF s.auto THEN [s EXCEPT !.done = s.p] ELSE s
SetN(s, n) == Computed([s EXCEPT !.p.N = n])
\* a new sampling period is also the feedback period until another one is set
SetT(s, t) == Computed([s EXCEPT !.p.T = t, !.p.fb = t])
\* (kind "tools" stands for the matrices computed by the library's functions for any first interval fb)
CanSetFb(s, f) == f > 0 /\ ((s.kind = "lip" /\ s.p.T % f = 0) \/ (s.kind = "tools" /\ f <= s.p.T))
SetFb(s, f) == Computed([s EXCEPT !.p.fb = f])
SetH(s, h) == Computed([s EXCEPT !.p.h = h])
SetG(s, g) == Computed([s EXCEPT !.p.g = g])
CanSetMass(s, m) == m <= s.p.M /\ m > 0
SetMass(s, m) == Computed([s EXCEPT !.p.m = m])
CanSetTotal(s, m) == m >= s.p.m
SetTotal(s, m) == Computed([s EXCEPT !.p.M = m])
Compute(s) == [s EXCEPT !.done = s.p, !.ready = TRUE]

\* ------------------------------------------------------------------ facts about roll-outs -
\* (checked by TLC in MCDynamics) superposition: a roll-out is S x + U j
Plus(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Times(k, a) == << k * a[1], k * a[2], k * a[3] >>
RECURSIVE Comb(_, _, _)
Comb(cols, w, i) == IF Len(w) = 0 THEN << 0, 0, 0 >>
                    ELSE Plus(Times(Head(w), Head(cols)[i]), Comb(Tail(cols), Tail(w), i))
Superposition(x, js, first, T) ==
  LET N == Len(js)
      r == Roll(<<6 * x[1], 2 * x[2], x[3]>>, js, first, T)
  IN \A i \in 1..N : r[i] = Plus(Comb(SCols(N, first, T), x, i), Comb(UCols(N, first, T), js, i))
=============================================================================
