------------------------------ MODULE TraceQp ------------------------------
(***************************************************************************)
(* Judges recorded normalisations, dimension tests and adapter solves.     *)
(***************************************************************************)
EXTENDS QPSolving, TLC, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Ev == Trace[l]
O == Ev.o
Sc == 16384
Big == 300000000
\* o / Sc = k / small, within the rounding of the record (and float precision)
EqQ(o, k, small) == QAbs(o) < Big \div small /\ QAbs(o * small - k * Sc) <= small + (IF Ev.float THEN 1 + QAbs(k) \div 16 ELSE 0)
VecQ(o, v, small) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : EqQ(o[i], v[i], small)
MatQ(o, v, small) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : VecQ(o[i], v[i], small)
NormBad ==
  LET q == Ev.qp
      sq == Smallest(q.Q, Ev.e, Ev.den)
      sa == Smallest(q.A, Ev.e, Ev.den)
  IN {x \in { <<"Hessian and gradient scaled together", MatQ(O.Q, q.Q, sq) /\ VecQ(O.p, q.p, sq)>>,
              <<"constraint matrix and bounds scaled together", MatQ(O.A, q.A, sa) /\ VecQ(O.bl, q.bl, sa) /\ VecQ(O.bu, q.bu, sa)>>,
              <<"variable bounds unchanged", VecQ(O.xl, q.xl, Ev.den) /\ VecQ(O.xu, q.xu, Ev.den)>>,
              <<"normalisation factors", EqQ(O.fq, Ev.den, sq) /\ EqQ(O.fa, Ev.den, sa)>> } : ~x[2]}
DimsOk == LET d == Ev.d nv == Ev.nv nc == Ev.nc
          IN d = << nv, nv, nv, nv, nv, nc, nv, nc, nc >>
DimsBad == {x \in { <<"dimension test", O.ok = DimsOk>> } : ~x[2]}
Flat(M) == IF Len(M) = 0 THEN <<>> ELSE [i \in 1..(Len(M) * Len(M[1])) |-> M[1 + ((i - 1) \div Len(M[1]))][1 + ((i - 1) % Len(M[1]))]]
SameVec(c, q) == c.p = q.p /\ c.xl = q.xl /\ c.xu = q.xu /\ c.bl = q.bl /\ c.bu = q.bu
SameMat(c, q) == c.Q = Flat(q.Q) /\ c.A = Flat(q.A)
Last == O.calls[Len(O.calls)]
\* a hot start on a problem whose cold start failed cannot succeed, whatever the script says
RealOk == Ev.code = 0
SolveBad ==
  IF Len(O.calls) = 0 THEN { <<"the program is handed to the solver", FALSE>> }
  ELSE {x \in { <<"cold or hot start", /\ O.calls[1].k \in Kinds(st, Ev.warm)
                                       /\ \A i \in 2..Len(O.calls) : O.calls[i].k = "init"
                                       /\ ~Ev.warm => \A i \in 1..Len(O.calls) : O.calls[i].k = "init">>,
                <<"data handed over", \A i \in 1..Len(O.calls) : SameVec(O.calls[i], Ev.qp) /\ O.calls[i].it = Ev.it
                                                                 /\ (O.calls[i].k = "init" => SameMat(O.calls[i], Ev.qp))>>,
                <<"success reported", O.ok = RealOk>>,
                <<"primal solution", O.ok => O.sol = Ev.primal>>,
                <<"diagnostics", O.text => ~O.ok>> } : ~x[2]}
NewBad == {x \in { <<"dimensions of the solver", O.nv = Ev.nv /\ O.nc = Ev.nc>> } : ~x[2]}
Bads ==
  IF Ev.crash THEN { <<"the call did not return", FALSE>> }
  ELSE CASE Ev.op = "norm" -> NormBad
         [] Ev.op = "dims" -> DimsBad
         [] Ev.op = "new" -> NewBad
         [] Ev.op = "solve" -> SolveBad
         [] OTHER -> {}
TInit == l = 1 /\ st = "no"
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ st' = IF Ev.op \in {"new", "reset"} THEN "no"
                  ELSE IF Ev.op = "solve" /\ ~Ev.crash /\ Len(O.calls) > 0 THEN After(st, Last.k, Ev.code = 0)
                  ELSE st
         /\ \A x \in Bads : PrintT("BAD " \o ToString(l) \o " " \o Prop \o " " \o x[1])
TSpec == TInit /\ [][TNext]_<<l, st>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
