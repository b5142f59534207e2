------------------------------- MODULE HumQP -------------------------------
(***************************************************************************)
(* The quadratic program of the humanoid controller in terms of the walk:  *)
(* constraints as membership of points in support and reach polygons, and  *)
(* the sample weights of the costs.                                        *)
(***************************************************************************)
EXTENDS FeetSupervisor, Costs

\* ------------------------------------------------------------------ membership -----------
Dbl(S) == {<<2 * p[1], 2 * p[2]>> : p \in S}
\* 1 outside, 0 on the boundary (or too close to tell, band tol), -1 inside
SideOf(p, E, tol) ==
  IF \E e \in E : Cross(e[1], e[2], p) < -(tol * L1(e[1], e[2])) THEN 1
  ELSE IF \A e \in E : Cross(e[1], e[2], p) > tol * L1(e[1], e[2]) THEN -1 ELSE 0
MaxOf(S) == IF 1 \in S THEN 1 ELSE IF 0 \in S THEN 0 ELSE -1
SideOK(o, e, exact) == (e # 0 \/ exact) => o = e

\* hull edges (doubled) of every phase's support polygon: index 0 is the current phase
PhaseRow(s, i) == IF i = 0 THEN 0 ELSE s.tl[i].row
CopEdges(s) == [i \in 0..Len(s.tl) |->
   IF i > 0 /\ s.tl[i].row > s.N - 1 THEN {}
   ELSE HullEdges(Dbl(CopPointsAt(s, PhaseRow(s, i))))]
KinEdges(s) == [j \in 1..s.M |-> HullEdges(Dbl(Range(KinOf(s, j))))]
CopTol(s, r) == IF TypeAt(s, r) = DS THEN 8 ELSE 0
ProbeCop(s, E, pts) == MaxOf({SideOf(pts[r], E[PhaseAt(s.tl, r - 1)], CopTol(s, r - 1)) : r \in 1..s.N} \cup {-1})
ProbeKin(s, E, ds) == MaxOf({SideOf(ds[j], E[j], 0) : j \in 1..s.M} \cup {-1})
AllSS(s) == \A r \in 0..(s.N - 1) : TypeAt(s, r) # DS

\* axis-aligned sides, and the bounds they put on the steps (half units), relative to x0
Right(E) == {e \in E : e[1][1] = e[2][1] /\ e[2][2] > e[1][2]}
Left(E)  == {e \in E : e[1][1] = e[2][1] /\ e[2][2] < e[1][2]}
Top(E)   == {e \in E : e[1][2] = e[2][2] /\ e[2][1] < e[1][1]}
Bot(E)   == {e \in E : e[1][2] = e[2][2] /\ e[2][1] > e[1][1]}
\* numbers of sides that are not axis-aligned
Slanted(E) == Cardinality(E) - Cardinality(Right(E) \cup Left(E) \cup Top(E) \cup Bot(E))

Weights(s) == [i \in 1..s.N |-> IF s.N = 1 THEN 21 * s.K - 20 * TimeToSample(s)
                                ELSE IF i = 1 THEN 20 * TimeToSample(s)
                                ELSE IF i = s.N THEN 21 * s.K - 20 * TimeToSample(s) ELSE 20 * s.K]
MaxAbs(S) == IF S = {} THEN 0 ELSE CHOOSE v \in S : \A w \in S : w <= v
=============================================================================
