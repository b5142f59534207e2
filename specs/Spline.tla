------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* The three-piece cubic spline between two (position, velocity,           *)
(* acceleration) states, in fixed point.  The pieces meet at 1/3 and 2/3   *)
(* of the horizon; value, first and second derivatives are continuous.     *)
(* Those twelve conditions determine the spline uniquely.  In truncated    *)
(* power form it is                                                        *)
(*     c s^3 + A0/2 s^2 + V0 s + P0                                        *)
(*           + j1 (s - 1/3)^3_+ + j2 (s - 2/3)^3_+                         *)
(* (C2 by construction) and c, j1, j2 follow from the final state.         *)
(* MCSpline checks the closed form against the twelve conditions.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

SAbs(a) == IF a < 0 THEN -a ELSE a
\* rounded division, any sign of the numerator, positive denominator
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
\* floor(X * p / q) without forming X * p; |p| and q small
MulDiv(X, p, q) == (X \div q) * p + (((X % q) * p) \div q)

\* All coefficients are 12 times the mathematical ones (they are integers then).
\* D  = final - initial position; V0, V1 = horizon * velocity; A0, A1 = horizon^2 * acceleration
SplC(D, V0, A0, V1, A1)  ==   54 * D - 36 * V0 - 11 * A0 - 18 * V1 +  2 * A1
SplJ1(D, V0, A0, V1, A1) == -162 * D + 90 * V0 + 18 * A0 + 72 * V1 -  9 * A1
SplJ2(D, V0, A0, V1, A1) ==  162 * D - 72 * V0 -  9 * A0 - 90 * V1 + 18 * A1

\* X * (p/q)^n for n = 1, 2, 3
Sc1(X, p, q) == MulDiv(X, p, q)
Sc2(X, p, q) == MulDiv(MulDiv(X, p, q), p, q)
Sc3(X, p, q) == MulDiv(MulDiv(MulDiv(X, p, q), p, q), p, q)
\* the same for the truncated powers (p/q - k/3)_+^n
Tr1(X, p, q, k) == IF 3 * p <= k * q THEN 0 ELSE Sc1(X, 3 * p - k * q, 3 * q)
Tr2(X, p, q, k) == IF 3 * p <= k * q THEN 0 ELSE Sc2(X, 3 * p - k * q, 3 * q)
Tr3(X, p, q, k) == IF 3 * p <= k * q THEN 0 ELSE Sc3(X, 3 * p - k * q, 3 * q)

\* 12 * displacement, 12 * first and second derivative in normalised time, at s = p/q
Spl0(D, V0, A0, V1, A1, p, q) ==
  Sc3(SplC(D, V0, A0, V1, A1), p, q) + Sc2(6 * A0, p, q) + Sc1(12 * V0, p, q)
  + Tr3(SplJ1(D, V0, A0, V1, A1), p, q, 1) + Tr3(SplJ2(D, V0, A0, V1, A1), p, q, 2)
Spl1(D, V0, A0, V1, A1, p, q) ==
  Sc2(3 * SplC(D, V0, A0, V1, A1), p, q) + Sc1(12 * A0, p, q) + 12 * V0
  + Tr2(3 * SplJ1(D, V0, A0, V1, A1), p, q, 1) + Tr2(3 * SplJ2(D, V0, A0, V1, A1), p, q, 2)
Spl2(D, V0, A0, V1, A1, p, q) ==
  Sc1(6 * SplC(D, V0, A0, V1, A1), p, q) + 12 * A0
  + Tr1(6 * SplJ1(D, V0, A0, V1, A1), p, q, 1) + Tr1(6 * SplJ2(D, V0, A0, V1, A1), p, q, 2)

(***************************************************************************)
(* States <<p, v, a>> in log units: p in U, v in U/10 per tick, a in       *)
(* U/100 per tick^2 (U = 1e-5 m for feet).  Step the spline that goes from *)
(* state s0 to a target at rest in h ticks, t ticks ahead (t <= h).        *)
(***************************************************************************)
\* beyond this (8 m) values are clamped: they only occur for runaway implementations
SClamp(v) == IF v > 800000 THEN 800000 ELSE IF v < -800000 THEN -800000 ELSE v
StepToRest(s0, target, h, t) ==
  LET D  == SClamp(target - s0[1])
      V0 == SClamp(MulDiv(s0[2], h, 10))
      A0 == SClamp(MulDiv(s0[3], h * h, 100))
      q0 == Spl0(D, V0, A0, 0, 0, t, h)
      q1 == Spl1(D, V0, A0, 0, 0, t, h)
      q2 == Spl2(D, V0, A0, 0, 0, t, h)
  IN << s0[1] + MulDiv(q0, 1, 12),
        MulDiv(MulDiv(q1, 10, 12), 1, h),
        MulDiv(MulDiv(q2, 10, 12), 10, h * h) >>
=============================================================================
