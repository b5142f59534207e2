------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Half-spaces met along a line of plans u + t d (t a real number): a      *)
(* limit is a pair <<a, b>> and means a + b t >= 0; a set of limits leaves  *)
(* a segment of t.  Also the comparisons of an observed program with the   *)
(* specified one.                                                          *)
(***************************************************************************)
EXTENDS Geometry, Integers, Sequences, TLC

ZRDiv(a, b) == IF a >= 0 THEN a \div b + (IF 2 * (a % b) >= b THEN 1 ELSE 0)
               ELSE -((-a) \div b + (IF 2 * ((-a) % b) >= b THEN 1 ELSE 0))
RECURSIVE ZMulRem(_, _, _)
ZMulRem(s, b, c) == IF s = 0 THEN <<0, 0>>
                    ELSE LET h == ZMulRem(s \div 2, b, c)
                             r == 2 * h[2] + (s % 2) * b
                         IN << 2 * h[1] + r \div c, r % c >>
\* s * b / c rounded down, for s >= 0 and 0 < c < 2^29
ZScale(s, b, c) == IF b >= 0 THEN s * (b \div c) + ZMulRem(s, b % c, c)[1]
                   ELSE -(s * ((-b) \div c) + ZMulRem(s, (-b) % c, c)[1])
ZMul(a, b, c) == IF a >= 0 THEN ZScale(a, b, c) ELSE -ZScale(-a, b, c)

\* ------------------------------------------------------------------ limits ---------------
Within(lim, x, dx) == { << lim - x, -dx >>, << lim + x, dx >> }
\* the segment of t (in thousandths, within +-Far) allowed by a set of limits, when the constants
\* are off by at most k
Far == 100000000
Ratio(a, b) == IF GAbs(a) \div b > 90000 THEN (IF a > 0 THEN Far ELSE -Far) ELSE ZMul(1000, a, b)
GMaxOf(S) == CHOOSE v \in S : \A x \in S : x <= v
GMinOf(S) == CHOOSE v \in S : \A x \in S : x >= v
Segment(S, k) ==
  [ none |-> \E x \in S : x[2] = 0 /\ x[1] + k < 0,
    lo |-> GMaxOf({-Far} \cup {Ratio(-(x[1] + k), x[2]) : x \in {y \in S : y[2] > 0}}),
    hi |-> GMinOf({Far} \cup {Ratio(x[1] + k, -x[2]) : x \in {y \in S : y[2] < 0}}) ]


\* ------------------------------------------------------------------ observed program -----
Scale == 100000
MaxAbs(S) == IF S = {} THEN 0 ELSE CHOOSE v \in S : \A x \in S : x <= v
\* the tilt tables are computed in fixed point
TiltRel(kk, rel) == GMinOf({rel, 200, 1 + GMinOf({kk, 100000000}) \div 20})
\* observed Hessian and gradient o (in Scale-ths of the o.k-th diagonal entry) against the table T
CostNear(o, T, rel) ==
  LET n == Len(T.g)
      kk == T.H[o.k][o.k]
      eH == TLCEval([i \in 1..n |-> [j \in 1..n |-> ZScale(Scale, T.H[i][j], kk)]])
      eg == TLCEval([i \in 1..n |-> ZScale(Scale, T.g[i], kk)])
      th == 3 + Scale \div rel
      tg == 3 + MaxAbs({GAbs(eg[i]) : i \in 1..n} \cup {Scale}) \div rel
  IN /\ o.pos /\ kk > 0
     /\ \A i, j \in 1..n : GAbs(o.H[i][j] - eH[i][j]) <= th
     /\ \A i \in 1..n : GAbs(o.g[i] - eg[i]) <= tg
\* observed segment o against limits S (fl, single precision: the constants carry rounding errors)
SegNear(fl, o, S) ==
  LET k == IF fl THEN 1 + MaxAbs({GAbs(x[1]) : x \in S}) \div 100000 ELSE 0
      a == Segment(S, k)
      b == IF k = 0 THEN a ELSE Segment(S, -k)
      t(x) == 3 + GAbs(x) \div 2000
      clear == \A x \in S : GAbs(x[2]) >= 20 \/ (x[2] = 0 /\ GAbs(x[1]) >= 50)
      empty(s, m) == s.none \/ s.lo > s.hi + m
      oe(m) == o.none \/ o.lo > o.hi + m
  IN \/ fl /\ ~clear
     \/ empty(a, 4) /\ oe(-4)
     \/ ~a.none /\ ~o.none /\ o.lo <= b.lo + t(b.lo) /\ o.lo >= a.lo - t(a.lo) /\ o.hi >= b.hi - t(b.hi) /\ o.hi <= a.hi + t(a.hi)
=============================================================================
