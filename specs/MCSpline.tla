------------------------------ MODULE MCSpline ------------------------------
(***************************************************************************)
(* The closed form of Spline meets the conditions that define the spline.  *)
(* Everything is linear in (D, V0, A0, V1, A1) and homogeneous, so the     *)
(* box of small integers (which contains a basis) decides it for all       *)
(* values: the truncated-power form is C2 by construction; what has to be  *)
(* checked are the end states.                                             *)
(***************************************************************************)
EXTENDS Spline
VARIABLE s
R == -2..2
Init == s \in R \X R \X R \X R \X R
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
D == s[1]
V0 == s[2]
A0 == s[3]
V1 == s[4]
A1 == s[5]
C == SplC(D, V0, A0, V1, A1)
J == SplJ1(D, V0, A0, V1, A1)
K == SplJ2(D, V0, A0, V1, A1)
\* at s = 1, times 12 * 27 (27 = 3^3 clears (2/3)^3 and (1/3)^3)
EndPos == 27 * C + 27 * 6 * A0 + 27 * 12 * V0 + 8 * J + K = 27 * 12 * D
EndVel == 9 * 3 * C + 9 * 12 * A0 + 9 * 12 * V0 + 3 * 4 * J + 3 * K = 9 * 12 * V1
EndAcc == 3 * 6 * C + 3 * 12 * A0 + 6 * 2 * J + 6 * K = 3 * 12 * A1
\* the fixed-point evaluation agrees with the exact values at the ends
Ends == /\ Spl0(D, V0, A0, V1, A1, 0, 1) = 0 /\ SAbs(Spl0(D, V0, A0, V1, A1, 1, 1) - 12 * D) <= 6
        /\ Spl1(D, V0, A0, V1, A1, 0, 1) = 12 * V0 /\ SAbs(Spl1(D, V0, A0, V1, A1, 1, 1) - 12 * V1) <= 6
        /\ Spl2(D, V0, A0, V1, A1, 0, 1) = 12 * A0 /\ SAbs(Spl2(D, V0, A0, V1, A1, 1, 1) - 12 * A1) <= 6
=============================================================================
