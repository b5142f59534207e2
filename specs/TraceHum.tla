------------------------------ MODULE TraceHum ------------------------------
(***************************************************************************)
(* Judges the humanoid controller's constraints and objectives recorded    *)
(* along histories of the feet supervisor (whose state comes from          *)
(* FeetSupervisor).                                                        *)
(*   model: <<h, gx, gy, gz>>                                              *)
(*   ctr:   probes <<CoP points, step displacements>> in half units        *)
(*   obj:   <<x, y, ref, ux, uy, steps>>, lengths 1/64 m, ticks 2^-5 s     *)
(***************************************************************************)
EXTENDS TraceFeet, HumQP

VARIABLE mdl       \* <<h, gx, gy, gz>>
hvars == <<st, l, skip, mdl>>

LIM == 2000000
BoundOK(o, F, c, d, sign) ==
  IF F = {} THEN o = sign * LIM
  ELSE LET v == (CHOOSE e \in F : TRUE)[1][c] IN SAbs(o - (v - d)) <= 1
\* steps given as displacements: step minus previous step is the displacement itself
FootBoundsOK(s, E, ds, sup, inf) ==
  /\ Len(sup) = 2 * s.M /\ Len(inf) = 2 * s.M
  /\ \A j \in 1..s.M : /\ BoundOK(sup[j], Right(E[j]), 1, ds[j][1], 1)
                       /\ BoundOK(inf[j], Left(E[j]), 1, ds[j][1], -1)
                       /\ BoundOK(sup[s.M + j], Top(E[j]), 2, ds[j][2], 1)
                       /\ BoundOK(inf[s.M + j], Bot(E[j]), 2, ds[j][2], -1)

CtrBad(s) ==
  LET P == Ev.p
      CE == CopEdges(s)
      KE == KinEdges(s)
      n == 2 * s.N + 2 * s.M
      d == O.dim
      kinRows == SumTo(s.M, LAMBDA j : Slanted(KE[j]))
      copRows == SumTo(s.N, LAMBDA i : Slanted(CE[PhaseAt(s.tl, i - 1)]))
  IN {x \in {
     <<"C08", "sizes of the CoP constraint", Skip("C08") \/
         (d[1] = O.nc /\ d[2] = O.nc /\ d[3] = n /\ d[4] = 2 * s.N /\ d[5] = 2 * s.N /\ O.sepC
          /\ (AllSS(s) => O.nc = copRows))>>,
     <<"C08", "CoP constraint membership", Skip("C08") \/
         \A k \in 1..Len(P) : SideOK(O.c[k], ProbeCop(s, CE, P[k][1]), AllSS(s))>>,
     <<"C08", "CoP constraint value and gradient", Skip("C08") \/
         \A k \in 1..(Len(P) - 1) : O.res[3 * k - 2] <= 200 /\ O.res[3 * k] <= 5>>,
     <<"C09", "sizes of the step constraint", Skip("C09") \/
         (d[6] = O.nf /\ d[7] = O.nf /\ d[8] = n /\ d[9] = 2 * s.M /\ d[10] = 2 * s.M /\ O.sepF /\ O.nf = kinRows)>>,
     <<"C09", "step constraint membership", Skip("C09") \/
         \A k \in 1..Len(P) : O.f[k] = ProbeKin(s, KE, P[k][2])>>,
     <<"C09", "step bounds", Skip("C09") \/
         \A k \in 1..Len(P) : FootBoundsOK(s, KE, P[k][2], O.sup[k], O.inf[k])>>,
     <<"C09", "step constraint value and gradient", Skip("C09") \/
         \A k \in 1..(Len(P) - 1) : O.res[3 * k - 1] <= 200>> } : ~x[3]}

\* ------------------------------------------------------------------ objectives -----------
Rho4 == (256 * mdl[1]) \div mdl[4]
\* constant offset of the CoP: -h gx / gz, in 1/6 of 1/64 m
Off6(k) == -((24 * mdl[1] * mdl[k + 1]) \div mdl[4])
\* relative tolerance of an objective's entries: Ev.rel divides the largest expected one
NearM(o, n, E(_, _)) ==
  LET big == MaxAbs({SAbs(E(i, j)) : i, j \in 1..n})
      t == 2 + big \div Ev.rel
  IN /\ Len(o) = n /\ \A i \in 1..n : Len(o[i]) = n /\ \A j \in 1..n : o[i][j] \in (E(i, j) - t)..(E(i, j) + t)
NearV(o, n, e, scale) ==
  LET t == 2 + MaxAbs({SAbs(e[i]) : i \in 1..n} \cup {scale}) \div Ev.rel
  IN Len(o) = n /\ \A i \in 1..n : o[i] \in (e[i] - t)..(e[i] + t)
SupLen6(s, k) == RDiv(SupportPos2(s)[k] * 96, 5000)   \* half units of 1e-4 m to 1/6 of 1/64 m

ObjBad(s) ==
  LET N == s.N
      M == s.M
      n == 2 * N + 2 * M
      first == TimeToSample(s)
      x == << Ev.x, Ev.y >>
      u == << Ev.u[1], Ev.u[2] >>
      ub == UCols(N, first, s.K)
      w == Weights(s)
      \* predicted changes along direction d (1..n): X jerks, Y jerks, X steps, Y steps
      axis(d) == IF d <= N THEN 1 ELSE IF d <= 2 * N THEN 2 ELSE IF d <= 2 * N + M THEN 1 ELSE 2
      isJ(d) == d <= 2 * N
      jn(d) == IF d <= N THEN d ELSE d - N
      sn(d) == IF d <= 2 * N + M THEN d - 2 * N ELSE d - 2 * N - M
      v(d) == [i \in 1..N |-> IF isJ(d) THEN ub[jn(d)][i][2] ELSE 0]
      j(d) == [i \in 1..N |-> IF isJ(d) /\ jn(d) = i THEN 1 ELSE 0]
      V == [d \in 1..n |-> v(d)]
      J == [d \in 1..n |-> j(d)]
      Hv == [d \in 1..n |-> [e \in 1..n |-> IF axis(d) = axis(e) THEN WDot(w, V[d], V[e]) ELSE 0]]
      Hj == [d \in 1..n |-> [e \in 1..n |-> IF axis(d) = axis(e) THEN WDot(w, J[d], J[e]) ELSE 0]]
      vel == [k \in 1..2 |-> Vel2(x[k], u[k], first, s.K)]
      err == [k \in 1..2 |-> [i \in 1..N |-> vel[k][i] - Ev.ref[(k - 1) * N + i]]]
      gv == [d \in 1..n |-> WDot(w, V[d], err[axis(d)])]
      gj == [d \in 1..n |-> WDot(w, J[d], u[axis(d)])]
      cop == [k \in 1..2 |-> Cop6(x[k], u[k], first, s.K, Rho4)]
      z == [i \in 1..n |->
              IF i <= 2 * N
              THEN LET k == IF i <= N THEN 1 ELSE 2
                       r == IF i <= N THEN i ELSE i - N
                       q == StepAt(s, r - 1)
                   IN cop[k][r] + Off6(k) - (IF q = 0 THEN SupLen6(s, k) ELSE 6 * Ev.q[q][k])
              ELSE IF i <= 2 * N + M THEN 6 * Ev.q[i - 2 * N][1] ELSE 6 * Ev.q[i - 2 * N - M][2]]
      D == [i \in 1..n |-> [d \in 1..n |->
              IF i > 2 * N THEN (IF i = d THEN 6 ELSE 0)
              ELSE LET r == IF i <= N THEN i ELSE i - N
                       k == IF i <= N THEN 1 ELSE 2
                   IN IF axis(d) # k THEN 0
                      ELSE IF isJ(d) THEN YCop(ub[jn(d)][r], 1, Rho4)
                      ELSE IF StepAt(s, r - 1) = sn(d) THEN -6 ELSE 0]]
  IN IF Skip("C10") THEN {}
     ELSE IF O.dim # [i \in 1..9 |-> n] THEN { <<"C10", "sizes of the objectives", FALSE>> }
     ELSE {y \in {
       <<"C10", "prediction from the variables", Len(O.z) = n /\ \A i \in 1..n : SAbs(O.z[i] - z[i]) <= 2>>,
       <<"C10", "support of the samples", O.D = D>>,
       <<"C10", "Hessian of the velocity tracking", NearM(O.Hv, n, LAMBDA a, b : Hv[a][b])>>,
       <<"C10", "gradient of the velocity tracking", NearV(O.gv, n, gv, 0)>>,
       <<"C10", "Hessian of the jerk minimisation", NearM(O.Hj, n, LAMBDA a, b : Hj[a][b])>>,
       <<"C10", "gradient of the jerk minimisation", NearV(O.gj, n, gj, MaxAbs({Hj[i][i] : i \in 1..n}))>>,
       <<"C10", "Hessian of the CoP centering", NearM(O.Hc, n, LAMBDA a, b : IF a = b /\ a <= 2 * N THEN 1000 ELSE 0)>>,
       <<"C10", "gradient of the CoP centering", NearV(O.gc, n, [i \in 1..n |-> IF i <= 2 * N THEN z[i] ELSE 0], 0)>>
     } : ~y[3]}

\* ------------------------------------------------------------------ one event ------------
Mine == {"ctr", "obj", "model"}
HBads(s) ==
  IF Ev.crash THEN {<<"ALL", "the call did not return", FALSE>>}
  ELSE CASE Ev.op = "ctr" -> CtrBad(s) [] Ev.op = "obj" -> ObjBad(s) [] OTHER -> {}
HInit == TInit /\ mdl = <<16, 0, 0, 32>>
HNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op # "reset" /\ skip
     THEN UNCHANGED <<st, skip, mdl>>
     ELSE LET s == IF Ev.op \in Mine THEN st ELSE After IN
          /\ Assert(Ev.op \in Mine \/ Ev.op = "reset" \/ Legal, <<"illegal history at line", l>>)
          /\ Report(HBads(s))
          /\ skip' = Ev.crash
          /\ st' = IF Ev.op \in Mine THEN st ELSE Adopt(s)
          /\ mdl' = IF Ev.op = "model" THEN <<A(1), A(2), A(3), A(4)>> ELSE IF Ev.op = "reset" THEN <<16, 0, 0, 32>> ELSE mdl
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
