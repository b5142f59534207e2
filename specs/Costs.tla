------------------------------- MODULE Costs -------------------------------
(***************************************************************************)
(* Quadratic costs of predicted trajectories, evaluated on directions      *)
(* whose predictions are exact integers.                                   *)
(*   cost = 1/2 sum_i w_i (y_i - r_i)^2                                     *)
(* so along directions d, e with predicted changes y(d), y(e):             *)
(*   d' H e = sum_i w_i y_i(d) y_i(e),  d' g = sum_i w_i (y_i - r_i) y_i(d) *)
(***************************************************************************)
EXTENDS Dynamics
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
SumTo(n, F(_)) == SumSeq([i \in 1..n |-> F(i)], n)
RECURSIVE WDotTo(_, _, _, _)
WDotTo(w, a, b, n) == IF n = 0 THEN 0 ELSE w[n] * a[n] * b[n] + WDotTo(w, a, b, n - 1)
WDot(w, a, b) == WDotTo(w, a, b, Len(w))
\* sums of jerk trajectories: state trajectory of x under js
Vel2(x, js, first, T) == LET r == Roll(<<6 * x[1], 2 * x[2], x[3]>>, js, first, T) IN [i \in 1..Len(js) |-> r[i][2]]
Cop6(x, js, first, T, rho) == LET r == Roll(<<6 * x[1], 2 * x[2], x[3]>>, js, first, T)
                              IN [i \in 1..Len(js) |-> r[i][1] - 6 * rho * r[i][3]]
\* a quantity of every unit jerk
Basis(N, Q(_)) == [j \in 1..N |-> Q(UnitJ(N, j))]
=============================================================================
