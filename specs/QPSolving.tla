------------------------------ MODULE QPSolving ------------------------------
(***************************************************************************)
(* What the controllers rely on when they hand a quadratic program over:   *)
(* normalisation of the program data and the contract of the solver        *)
(* adapter (cold start, hot start, success and failure).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

QAbs(x) == IF x < 0 THEN -x ELSE x
\* ------------------------------------------------------------- normalisation -------------
\* Entries are integers k standing for k / den; an entry counts when |k| > e.
Entries(M) == {QAbs(M[i][j]) : i \in 1..Len(M), j \in (IF Len(M) = 0 THEN {} ELSE 1..Len(M[1]))}
\* The factor is den / Smallest.
Smallest(M, e, den) == LET S == {k \in Entries(M) : k > e /\ k < den} \cup {den}
                       IN CHOOSE k \in S : \A q \in S : k <= q
\* The adapter: "no" never solved, "yes" a cold start succeeded and all since, "open" a hot start
\* failed since (continuing from it or starting again are both right).
Starts == {"no", "yes", "open"}
Kinds(s, warm) == IF ~warm \/ s = "no" THEN {"init"} ELSE IF s = "yes" THEN {"hot"} ELSE {"init", "hot"}
After(s, kind, ok) == IF ok THEN "yes" ELSE IF kind = "init" THEN "no" ELSE "open"
=============================================================================
