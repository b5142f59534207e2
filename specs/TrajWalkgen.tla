---------------------------- MODULE TrajWalkgen -----------------------------
(***************************************************************************)
(* The trajectory generator: one axis driven by a piecewise constant jerk  *)
(* that tracks a velocity and a position reference within limits.          *)
(*                                                                         *)
(* Units and integrator states are those of ZebWalkgen.  The controller is *)
(* a record of its current parameters, references, state and plan X; every *)
(* setter replaces one field and nothing else is remembered.  The program  *)
(* of a solve is a function of the record: feasible set JLimits(w, ...),   *)
(* cost JTable(w); a solve replaces the plan and advances the state.       *)
(***************************************************************************)
EXTENDS Costs, Limits, TLC

JStart == [N |-> 1, T |-> 8, vl |-> 16, al |-> 1, jl |-> 1, wt |-> <<0, 0, 0>>, cfg |-> 0,
           vref |-> <<0>>, pref |-> <<0>>, s |-> <<0, 0, 0>>, X |-> <<0>>]

\* a change of the horizon forgets the plan; references have to be given again
JSetN(w, n) == [w EXCEPT !.N = n, !.X = Zeros(n), !.vref = << >>, !.pref = << >>]
JReady(w) == Len(w.vref) = w.N /\ Len(w.pref) = w.N /\ \E i \in 1..3 : w.wt[i] > 0
JCall(w, op, a) ==
  CASE op = "reset" -> JStart
    [] op = "N" -> JSetN(w, a[1])
    [] op = "T" -> [w EXCEPT !.T = a[1]]
    [] op = "vl" -> [w EXCEPT !.vl = a[1]]
    [] op = "al" -> [w EXCEPT !.al = a[1]]
    [] op = "jl" -> [w EXCEPT !.jl = a[1]]
    [] op = "wt" -> [w EXCEPT !.wt = a]
    [] op = "cfg" -> [w EXCEPT !.cfg = a[1]]
    [] op = "vref" -> [w EXCEPT !.vref = a]
    [] op = "pref" -> [w EXCEPT !.pref = a]
    [] op = "s" -> [w EXCEPT !.s = a]

Pred(w, u) == Roll(w.s, u, w.T, w.T)
Free(w, d) == Roll(<<0, 0, 0>>, d, w.T, w.T)

\* half the weighted sum of squares of velocity error, position error and jerk
JTable(w) ==
  LET N == w.N
      d == TLCEval([j \in 1..N |-> Free(w, UnitJ(N, j))])
      y == TLCEval(Pred(w, w.X))
      one == [i \in 1..N |-> 1]
      V == TLCEval([j \in 1..N |-> [i \in 1..N |-> d[j][i][2]]])
      P == TLCEval([j \in 1..N |-> [i \in 1..N |-> d[j][i][1]]])
      eV == TLCEval([i \in 1..N |-> y[i][2] - w.vref[i]])
      eP == TLCEval([i \in 1..N |-> y[i][1] - 6 * w.pref[i]])
      dot(q, a, e) == IF w.wt[q] = 0 THEN 0 ELSE w.wt[q] * WDot(one, a, e)
  IN TLCEval([ H |-> [i \in 1..N |-> [j \in 1..N |-> dot(1, V[i], V[j]) + dot(2, P[i], P[j]) + (IF i = j THEN w.wt[3] ELSE 0)]],
               g |-> [i \in 1..N |-> dot(1, V[i], eV) + dot(2, P[i], eP) + w.wt[3] * w.X[i]] ])

\* velocity, acceleration and jerk limits along the plans u + t d
JLimits(w, u, d) ==
  LET y == TLCEval(Pred(w, u))
      z == TLCEval(Free(w, d))
  IN IF w.cfg = 0 THEN {}
     ELSE UNION {Within(w.vl, y[i][2], z[i][2]) \cup Within(w.al, y[i][3], z[i][3]) \cup Within(w.jl, u[i], d[i]) : i \in 1..w.N}

JSolve(w, plan, fb) == [w EXCEPT !.X = plan, !.s = Integrate(w.s, plan[1], fb)]
=============================================================================
