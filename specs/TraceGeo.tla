------------------------------ MODULE TraceGeo ------------------------------
(***************************************************************************)
(* Judges recorded results of ConvexPolygon and Interpolator.              *)
(*   hull:   in.pts, in.strict (coordinates exactly representable);        *)
(*           observed vertices v (ConvexPolygon) and w (extractVertices)   *)
(*   member: in.pts, in.probes (half units); observed side of each probe:  *)
(*           the largest sign over all bounds and rows                     *)
(*   spline: in.s = <<P0, V0, A0, P1, V1, A1>>; observed values and        *)
(*           derivatives at s = 0, 1/12, ..., 1 (both sides of the knots)  *)
(***************************************************************************)
EXTENDS Geometry, Spline, TLC, Json, IOUtils

Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
O == Ev.o
Pts == Range(Ev.pts)

\* ---------------------------------------------------------------- C22 ---------------------
Rotation(a, b) == /\ Len(a) = Len(b)
                  /\ Len(a) = 0 \/ \E k \in 0..(Len(a) - 1) : \A i \in 1..Len(a) : a[i] = b[((i + k - 1) % Len(b)) + 1]
CCW(v) == LET n == Len(v) IN
  n >= 3 => \A i \in 1..n : \A j \in 1..n : Cross(v[i], v[(i % n) + 1], v[j]) >= -(4 * L1(v[i], v[(i % n) + 1]))
HullBad ==
  IF Ev.strict
  THEN {x \in { <<"hull vertices", Rotation(O.w, HullCCW(Pts))>>,
                <<"polygon vertices", Rotation(O.v, HullCCW(Pts)) /\ O.n = Len(O.v)>> } : ~x[2]}
  ELSE {x \in { <<"hull region", SameRegion(O.w, Pts, Ev.tol)>>,
                <<"polygon region", SameRegion(O.v, Pts, Ev.tol) /\ O.n = Len(O.v)>>,
                <<"counter-clockwise order", CCW(O.v) /\ CCW(O.w)>>,
                <<"vertices given once", \A i, j \in 1..Len(O.v) : i # j => ~Near(O.v[i], O.v[j], Ev.sep)>>,
                <<"vertices are given points", \A i \in 1..Len(O.v) : \E p \in Pts : Near(p, O.v[i], 1)>> } : ~x[2]}

\* ---------------------------------------------------------------- C23 ---------------------
Dbl(S) == {<<2 * p[1], 2 * p[2]>> : p \in S}
Side(p, E) == IF \E e \in E : Cross(e[1], e[2], p) < 0 THEN 1
              ELSE IF \E e \in E : Cross(e[1], e[2], p) = 0 THEN 0 ELSE -1
AxisX(E) == {e \in E : e[1][1] = e[2][1]}
AxisY(E) == {e \in E : e[1][2] = e[2][2]}
B(b) == IF b THEN 1 ELSE 0
MemberBad ==
  LET E == HullEdges(Dbl(Pts))
      AX == AxisX(E)
      AY == AxisY(E)
  IN {x \in { <<"membership", \A i \in 1..Len(Ev.probes) : O.side[i] = Side(Ev.probes[i], E)>>,
              <<"number of linear constraints", O.n = Cardinality(E) - Cardinality(AX) - Cardinality(AY)
                                                /\ O.na = O.n /\ O.nb = O.n>>,
              <<"bounds", O.fin = << B(\E e \in AX : e[2][2] < e[1][2]), B(\E e \in AX : e[2][2] > e[1][2]),
                                     B(\E e \in AY : e[2][1] > e[1][1]), B(\E e \in AY : e[2][1] < e[1][1]) >>>> } : ~x[2]}

\* ---------------------------------------------------------------- C24 ---------------------
\* exact, at s = k / q (q a multiple of 3): 12 q^3 value, 12 q^2 derivative, 12 q second derivative
Pos(k) == IF k > 0 THEN k ELSE 0
D0(s) == s[4] - s[1]
CC(s) == SplC(D0(s), s[2], s[3], s[5], s[6])
J1(s) == SplJ1(D0(s), s[2], s[3], s[5], s[6])
J2(s) == SplJ2(D0(s), s[2], s[3], s[5], s[6])
Sq(k) == k * k
Cu(k) == k * k * k
X0(s, k, q) == CC(s) * Cu(k) + 6 * q * s[3] * Sq(k) + 12 * q * q * s[2] * k + 12 * Cu(q) * s[1]
               + J1(s) * Cu(Pos(k - q \div 3)) + J2(s) * Cu(Pos(k - 2 * (q \div 3)))
X1(s, k, q) == 3 * CC(s) * Sq(k) + 12 * q * s[3] * k + 12 * q * q * s[2]
               + 3 * J1(s) * Sq(Pos(k - q \div 3)) + 3 * J2(s) * Sq(Pos(k - 2 * (q \div 3)))
X2(s, k, q) == 6 * CC(s) * k + 12 * q * s[3] + 6 * J1(s) * Pos(k - q \div 3) + 6 * J2(s) * Pos(k - 2 * (q \div 3))
\* sample points: 0..q with both sides of the knots q/3 and 2q/3, in O.k; the acceleration also at
\* the instants O.fk of a finer division Ev.fq
SplineBad ==
  LET q == Ev.q
      n == 1..Len(O.k)
  IN {x \in { <<"instants", Len(O.k) = q + 3>>,
           <<"interpolated position", \A i \in n : SAbs(O.p[i] - X0(Ev.s, O.k[i], q)) <= Ev.tol * (Cu(q) \div 36)>>,
           <<"interpolated velocity", \A i \in n : SAbs(O.d[i] - X1(Ev.s, O.k[i], q)) <= Ev.tol * (Sq(q) \div 12)>>,
           <<"interpolated acceleration", \A i \in n : SAbs(O.dd[i] - X2(Ev.s, O.k[i], q)) <= (Ev.tol * q) \div 2>>,
           <<"acceleration at any instant",
             \A i \in 1..Len(Ev.fk) : SAbs(O.fd[i] - X2(Ev.s, Ev.fk[i], Ev.fq)) <= (Ev.tol * Ev.fq) \div 2>> } : ~x[2]}

Bads ==
  IF Ev.crash THEN { <<"the call did not return", FALSE>> }
  ELSE CASE Ev.op = "hull" -> HullBad
         [] Ev.op = "member" -> MemberBad
         [] Ev.op = "spline" -> SplineBad
         [] OTHER -> {}
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ \A x \in Bads : PrintT("BAD " \o ToString(l) \o " " \o Prop \o " " \o x[1])
TSpec == TInit /\ [][TNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
