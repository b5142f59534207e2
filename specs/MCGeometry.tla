----------------------------- MODULE MCGeometry -----------------------------
(***************************************************************************)
(* Every list of at most MaxPts points on a W x H grid (duplicates and     *)
(* collinear points included).  Invariants: the edge characterisation of   *)
(* the hull agrees with the definition of extreme points, the walk lists   *)
(* every vertex once, counter-clockwise, and the hull contains the points. *)
(* Each list is printed and executed on the real ConvexPolygon.            *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json

CONSTANTS W, H, MaxPts

VARIABLE pts
Grid == (0..(W - 1)) \X (0..(H - 1))

\* lists are built one point after the other; only non-decreasing ones (as multisets) are needed
\* for the hull itself, the order of the points is varied by the check
Key(p) == p[2] * W + p[1]
Init == pts = << >>
Next == /\ Len(pts) < MaxPts
        /\ \E p \in Grid : /\ (IF pts = << >> THEN TRUE ELSE Key(pts[Len(pts)]) <= Key(p))
                           /\ pts' = Append(pts, p)
Spec == Init /\ [][Next]_pts

S == Range(pts)
HullOK ==
  S # {} =>
  /\ HullVertices(S) = ExtremePoints(S)
  /\ LET h == HullCCW(S)
         n == Len(h)
     IN /\ Range(h) = ExtremePoints(S)
        /\ n = Cardinality(Range(h))
        /\ n >= 3 => \A i \in 1..n : Cross(h[i], h[(i % n) + 1], h[((i + 1) % n) + 1]) > 0
        /\ \A p \in S : InHullOf(p, S)
EmitPts == pts # << >> => PrintT("PTS " \o ToJson(pts))
=============================================================================
