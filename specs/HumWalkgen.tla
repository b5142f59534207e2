----------------------------- MODULE HumWalkgen -----------------------------
(***************************************************************************)
(* The humanoid controller on top of the feet supervisor: its parameters,  *)
(* the quadratic program of a solve and the motion that follows.           *)
(*                                                                         *)
(* Controller state (a record w next to the supervisor's st):              *)
(*   wt    weights <<velocity, jerk, CoP>>, cfg <<CoP, steps>> constraints *)
(*   rho   h / g in ticks^2, ref velocity references (1/128 m per tick)    *)
(*   com   CoM states <<p, v, a>> in 1e-6 m, 1e-7 m/tick, 1e-8 m/tick^2    *)
(*   exact the CoM states in 1/64 m and ticks, when they are exact         *)
(*   first the plan restarts from the CoP of the CoM state                 *)
(*   cop   CoP part of the current plan, 1e-6 m, in the frames of the feet *)
(* The program is a function of st and w only: whatever the order of the   *)
(* calls that led there.                                                   *)
(***************************************************************************)
EXTENDS HumQP

WStart(N) == [wt |-> <<0, 0, 0>>, cfg |-> <<0, 0>>, rho |-> 80, ref |-> [i \in 1..(2 * N) |-> 0],
              com |-> << <<0, 0, 0>>, <<0, 0, 0>> >>, exact |-> << <<0, 0, 0>>, <<0, 0, 0>> >>, known |-> TRUE,
              first |-> TRUE, cop |-> [i \in 1..(2 * N) |-> 0]]

\* ------------------------------------------------------------------ the plan -------------
\* foot positions in 1e-6 m
Foot6(f) == << 10 * f.x[1], 10 * f.y[1] >>
Support6(s) == IF s.front.type = RSS THEN Foot6(s.R)
               ELSE IF s.front.type = DS /\ ~s.move
                    THEN << 5 * (s.L.x[1] + s.R.x[1]), 5 * (s.L.y[1] + s.R.y[1]) >>
                    ELSE Foot6(s.L)
\* the plan a solve starts from
CopOf(c, rho) == c[1] - RDiv(rho * c[3], 100)
PlanCop(s, w) ==
  IF ~w.first THEN w.cop
  ELSE [i \in 1..(2 * s.N) |-> LET k == IF i <= s.N THEN 1 ELSE 2 IN CopOf(w.com[k], w.rho) - Foot6(s.L)[k]]

\* ------------------------------------------------------------------ the motion -----------
\* jerks q in 1e-6 m/tick^3, d in ticks
Advance6(c, q, d) == << c[1] + RDiv(c[2] * d, 10) + RDiv(c[3] * d * d, 200) + RDiv(q * d * d * d, 6),
                        c[2] + RDiv(c[3] * d, 10) + 5 * q * d * d,
                        c[3] + 100 * q * d >>
\* first CoP of a plan that makes the CoM follow jerk q, relative to the foot it stands on
FirstCop(s, w, q, k, step6) ==
  CopOf(Advance6(w.com[k], q, TimeToSample(s)), w.rho)
    - (IF StepAt(s, 0) = 0 THEN Support6(s)[k] ELSE step6)

\* ------------------------------------------------------------------ constraints ----------
Axis(E) == Right(E) \cup Left(E) \cup Top(E) \cup Bot(E)
\* p: displacement for the slanted sides, q: for the axis-aligned ones
SideSplit(p, q, E, tol) ==
  LET A == Axis(E)
      c(e) == Cross(e[1], e[2], IF e \in A THEN q ELSE p)
  IN IF \E e \in E : c(e) < -(tol * L1(e[1], e[2])) THEN 1
     ELSE IF \A e \in E : c(e) > tol * L1(e[1], e[2]) THEN -1 ELSE 0
RECURSIVE SumPts(_, _)
SumPts(d, n) == IF n = 0 THEN <<0, 0>> ELSE PAdd(SumPts(d, n - 1), d[n])
StepSide(s, E, j, ds) ==
  IF j = 1 THEN SideSplit(ds[1], ds[1], E, 6)
  ELSE LET z == PAdd(SupportPos2(s), SumPts(ds, j))
       IN SideSplit(ds[j], PSub(z, << 2 * s.sx[j - 1], 2 * s.sy[j - 1] >>), E, 6)
ProgramSide(s, w, CE, KE, pts, ds) ==
  MaxOf({-1} \cup (IF w.cfg[1] = 0 THEN {} ELSE {SideOf(pts[r], CE[PhaseAt(s.tl, r - 1)], 8) : r \in 1..s.N})
             \cup (IF w.cfg[2] = 0 THEN {} ELSE {StepSide(s, KE[j], j, ds) : j \in 1..s.M}))

\* ------------------------------------------------------------------ cost -----------------
\* (s * b) / c without leaving 32 bits; s < 2^18, c < 2^29
RECURSIVE MulRem(_, _, _)
MulRem(s, b, c) == IF s = 0 THEN <<0, 0>>
                   ELSE LET h == MulRem(s \div 2, b, c)
                            r == 2 * h[2] + (s % 2) * b
                        IN << 2 * h[1] + r \div c, r % c >>
ScaleDiv(s, b, c) == IF b >= 0 THEN s * (b \div c) + MulRem(s, b % c, c)[1]
                   ELSE -(s * ((-b) \div c) + MulRem(s, (-b) % c, c)[1])

\* a length in 1e-6 m as units and thousandths of 1/6 of 1/64 m
Fine(x) == LET t == RDiv(x * 48, 125) IN << t \div 1000, t % 1000 >>
\* Hessian and gradient along the roll-out directions, times K, at the point of jerks u
CostTable(s, w, u, q) ==
  LET N == s.N
      M == s.M
      n == 2 * N + 2 * M
      first == TimeToSample(s)
      ub == UCols(N, first, s.K)
      sw == Weights(s)
      axis(d) == IF d <= N THEN 1 ELSE IF d <= 2 * N THEN 2 ELSE IF d <= 2 * N + M THEN 1 ELSE 2
      jn(d) == IF d <= N THEN d ELSE IF d <= 2 * N THEN d - N ELSE 0
      sn(d) == IF d <= 2 * N + M THEN d - 2 * N ELSE d - 2 * N - M
      \* per direction: velocity, jerk and (6 times) the relative CoP at every sample
      V == [d \in 1..n |-> [i \in 1..N |-> IF jn(d) > 0 THEN ub[jn(d)][i][2] ELSE 0]]
      J == [d \in 1..n |-> [i \in 1..N |-> IF jn(d) = i THEN 1 ELSE 0]]
      C == [d \in 1..n |-> [i \in 1..N |-> IF jn(d) > 0 THEN YCop(ub[jn(d)][i], 1, w.rho)
                                           ELSE IF StepAt(s, i - 1) = sn(d) THEN -6 ELSE 0]]
      one == [i \in 1..N |-> 1]
      vel == [k \in 1..2 |-> Vel2(w.exact[k], u[k], first, s.K)]
      err == [k \in 1..2 |-> [i \in 1..N |-> vel[k][i] - w.ref[(k - 1) * N + i]]]
      cop == [k \in 1..2 |-> LET c == Cop6(w.exact[k], u[k], first, s.K, w.rho)
                             IN [i \in 1..N |-> c[i] - (LET b == StepAt(s, i - 1) IN
                                   IF b = 0 THEN Fine(Support6(s)[k])[1] ELSE 6 * q[b][k])]]
      frac == [k \in 1..2 |-> [i \in 1..N |-> IF StepAt(s, i - 1) = 0 THEN Fine(Support6(s)[k])[2] ELSE 0]]
      cost(v, jj, c) == w.wt[1] * v + w.wt[2] * jj + w.wt[3] * s.K * c
  IN [ H |-> [d \in 1..n |-> [e \in 1..n |-> IF axis(d) # axis(e) THEN 0
               ELSE cost(WDot(sw, V[d], V[e]), WDot(sw, J[d], J[e]), WDot(one, C[d], C[e]))]],
       g |-> [d \in 1..n |-> cost(WDot(sw, V[d], err[axis(d)]), WDot(sw, J[d], u[axis(d)]), WDot(one, C[d], cop[axis(d)]) - RDiv(WDot(one, C[d], frac[axis(d)]), 1000))] ]
=============================================================================
