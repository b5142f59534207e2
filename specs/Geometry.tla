------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Planar geometry over integer points (pairs <<x, y>>), the oracle for    *)
(* every polygon the library handles: support polygons, reach polygons,    *)
(* CoP/CoM polygons.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

GMin(a, b) == IF a < b THEN a ELSE b
GMax(a, b) == IF a < b THEN b ELSE a
GAbs(a) == IF a < 0 THEN -a ELSE a

Range(s) == {s[i] : i \in 1..Len(s)}

PAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
PSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
PClamp(p, m) == <<GMax(-m, GMin(m, p[1])), GMax(-m, GMin(m, p[2]))>>

\* twice the signed area of the triangle (o, a, b): > 0 iff b lies to the left of o->a
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Dot(o, a, b)   == (a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2])

\* p lies on the closed segment [a, b]
OnSegment(p, a, b) == Cross(a, b, p) = 0 /\ Dot(p, a, b) <= 0

\* Definition of the extreme points of a finite set: p is extreme iff it is not in the convex
\* hull of the others.  In the plane (Caratheodory) that is: p is in no closed triangle
\* (possibly degenerate) spanned by three other points.
InTriangle(p, a, b, c) ==
  \/ OnSegment(p, a, b) \/ OnSegment(p, b, c) \/ OnSegment(p, a, c)
  \/ /\ Cross(a, b, c) # 0
     /\ \/ Cross(a, b, p) >= 0 /\ Cross(b, c, p) >= 0 /\ Cross(c, a, p) >= 0
        \/ Cross(a, b, p) <= 0 /\ Cross(b, c, p) <= 0 /\ Cross(c, a, p) <= 0

ExtremePoints(S) ==
  {p \in S : \A a, b, c \in (S \ {p}) : ~InTriangle(p, a, b, c)}

\* An equivalent, cheaper characterisation for larger sets (checked against ExtremePoints by
\* TLC in MCGeometry): an ordered pair (a, b) is a hull edge iff no point lies strictly right of
\* it and all the points on its line lie in [a, b].
HullEdges(S) ==
  {e \in S \X S :
     /\ e[1] # e[2]
     /\ \A p \in S : \/ Cross(e[1], e[2], p) > 0
                     \/ OnSegment(p, e[1], e[2])}

HullVertices(S) ==
  IF Cardinality(S) <= 1 THEN S
  ELSE {e[1] : e \in HullEdges(S)}

\* the lowest, then leftmost point
LowestLeftmost(S) ==
  CHOOSE p \in S : \A q \in S : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] <= q[1])

\* counter-clockwise list of the hull vertices, from the lowest-leftmost one
RECURSIVE HullWalk(_, _, _)
HullWalk(E, start, acc) ==
  LET cur == acc[Len(acc)]
      nxt == (CHOOSE e \in E : e[1] = cur)[2]
  IN IF nxt = start \/ Len(acc) > Cardinality(E) THEN acc
     ELSE HullWalk(E, start, Append(acc, nxt))

HullCCW(S) ==
  IF S = {} THEN <<>>
  ELSE IF Cardinality(S) = 1 THEN <<CHOOSE p \in S : TRUE>>
  ELSE LET s == LowestLeftmost(S) IN HullWalk(HullEdges(S), s, <<s>>)

\* closed region spanned by a counter-clockwise vertex list
InHullOf(p, S) ==
  IF Cardinality(S) = 1 THEN p \in S
  ELSE \A e \in HullEdges(S) : Cross(e[1], e[2], p) >= 0 /\
         (Cardinality(HullVertices(S)) = 2 => OnSegment(p, e[1], e[2]))

\* bounding box of a non-empty point set, and twice its centre
BMinX(S) == CHOOSE v \in {p[1] : p \in S} : \A p \in S : v <= p[1]
BMaxX(S) == CHOOSE v \in {p[1] : p \in S} : \A p \in S : v >= p[1]
BMinY(S) == CHOOSE v \in {p[2] : p \in S} : \A p \in S : v <= p[2]
BMaxY(S) == CHOOSE v \in {p[2] : p \in S} : \A p \in S : v >= p[2]
BBoxCentre2(S) == <<BMinX(S) + BMaxX(S), BMinY(S) + BMaxY(S)>>

\* ---------------------------------------------------------------- tolerant comparison ----
\* q is within tol of p in both coordinates
Near(p, q, tol) == GAbs(p[1] - q[1]) <= tol /\ GAbs(p[2] - q[2]) <= tol

\* integer square root style bound of an edge length: |dx| + |dy| >= length
L1(a, b) == GAbs(a[1] - b[1]) + GAbs(a[2] - b[2])

\* p is inside the hull of S up to tol length units
InHullTol(p, S, tol) ==
  \A e \in HullEdges(S) : Cross(e[1], e[2], p) >= -(tol * L1(e[1], e[2]))

\* h is within tol of the segment [a, b]
NearSegment(h, a, b, tol) == GAbs(Cross(a, b, h)) <= tol * L1(a, b) /\ Dot(h, a, b) <= tol * L1(a, b)

\* the vertex list vs (rounded numbers of the implementation) spans the same region as the hull
\* of S: every hull vertex is on the boundary of the listed polygon (up to tol: a vertex that is
\* extreme only by a rounding error may be missing), and every listed vertex is in the hull
\* (coordinates beyond 1.6e4 units cannot be right and would overflow the cross products)
SameRegion(vs, S, tol) ==
  LET n == Len(vs)
      E == HullEdges(S)
      H == IF Cardinality(S) <= 1 THEN S ELSE {e[1] : e \in E}
  IN
  /\ \A i \in 1..n : GAbs(vs[i][1]) <= 16000 /\ GAbs(vs[i][2]) <= 16000
  /\ \A h \in H : \E i \in 1..n : \/ Near(h, vs[i], tol)
                                                \/ NearSegment(h, vs[i], vs[(i % n) + 1], tol)
  /\ \A i \in 1..n, e \in E : Cross(e[1], e[2], vs[i]) >= -(tol * L1(e[1], e[2]))
=============================================================================
