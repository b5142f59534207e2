------------------------------ MODULE TraceDyn ------------------------------
(***************************************************************************)
(* Judges the matrices the real models report after every call: each       *)
(* column of S and U must be the roll-out of the corresponding unit        *)
(* vector.  Observed numbers are scaled by 60 (60 M for the CoP), time     *)
(* in ticks.                                                               *)
(***************************************************************************)
EXTENDS Dynamics, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l, skip
Ev == Trace[l]
A(i) == Ev.a[i]
O == Ev.o
Abs(a) == IF a < 0 THEN -a ELSE a
\* relative tolerance Ev.rel is in 1e-6 (double: 1, float: 200)
Eq(o, e) == Abs(o - 10 * e) <= 2 + (Abs(e) \div 100000) * Ev.rel + ((Abs(e) % 100000) * Ev.rel) \div 100000

Mat(o, rows, cols, F(_, _)) ==
  /\ Len(o) = rows
  /\ \A i \in 1..rows : Len(o[i]) = cols /\ \A j \in 1..cols : Eq(o[i][j], F(i, j))

\* a dynamic D of N samples, first interval `first`, against the read-out Y of the state
DynOK(D, N, first, T, Y(_)) ==
  LET sc == SCols(N, first, T)
      uc == UCols(N, first, T)
  IN /\ Mat(D.S, N, 3, LAMBDA i, k : Y(sc[k][i]))
     /\ Mat(D.U, N, N, LAMBDA i, j : Y(uc[j][i]))
     /\ D.tr
NoK(D, N) == Len(D.K) = N /\ \A i \in 1..N : D.K[i] = 0
Dyn2OK(D, N, first, T, Y(_)) ==
  LET sc == SCols2(N, first, T)
      uc == UCols2(N, first, T)
  IN /\ Mat(D.S, N, 2, LAMBDA i, k : Y(sc[k][i]))
     /\ Mat(D.U, N, N, LAMBDA i, j : Y(uc[j][i]))
     /\ D.tr /\ NoK(D, N)
\* inverse: observed residual |U Uinv - 1| in thousandths of the rounding bound
InvOK(D) == D.inv <= 1000
\* the CoP dynamic is invertible unless its diagonal vanishes: m (d^3 - 6 rho d) for d = first, T
CopRegular(p, first) ==
  /\ p.m > 0
  /\ \A d \in {first, p.T} : Abs(d * d - 6 * Rho(p)) >= 1
JerkOK(D, N) ==
  /\ Len(D.U) = N /\ \A i \in 1..N : D.U[i] = [j \in 1..N |-> IF i = j THEN 60 ELSE 0]
  /\ Len(D.S) = N /\ \A i \in 1..N : \A k \in 1..3 : D.S[i][k] = 0
  /\ D.tr

CopOK(D, p, first, g) ==
  /\ DynOK(D, p.N, first, p.T, LAMBDA x : YCop(x, p.m, Rho(p)))
  /\ Len(D.K) = p.N
  /\ \A i \in 1..p.N : Abs(D.K[i] - (-60 * p.m * Rho(p) * g)) <= 2 + Abs((p.m * Rho(p) * g * Ev.rel) \div 1000)

Bad(set) == {x \in set : ~x[2]}
IndexBad(D, p, first) ==
  Bad({ <<"position dynamic", DynOK(D.pos, p.N, first, p.T, YPos) /\ NoK(D.pos, p.N)>>,
        <<"velocity dynamic", DynOK(D.vel, p.N, first, p.T, YVel) /\ NoK(D.vel, p.N)>>,
        <<"acceleration dynamic", DynOK(D.acc, p.N, first, p.T, YAcc) /\ NoK(D.acc, p.N)>>,
        <<"jerk dynamic", JerkOK(D.jerk, p.N) /\ NoK(D.jerk, p.N)>>,
        <<"inverse of the position dynamic", InvOK(D.pos)>>,
        <<"inverse of the velocity dynamic", InvOK(D.vel)>>,
        <<"inverse of the acceleration dynamic", InvOK(D.acc)>>,
        <<"inverse of the jerk dynamic", InvOK(D.jerk)>> })
CopBad(D, p, first) ==
  Bad({ <<"CoP X dynamic", CopOK(D.copX, p, first, p.g[1])>>,
        <<"CoP Y dynamic", CopOK(D.copY, p, first, p.g[2])>>,
        <<"inverse of the CoP dynamics", CopRegular(p, first) => InvOK(D.copX) /\ InvOK(D.copY)>> })
TiltBad(D, p, first) ==
  Bad({ <<"tilt angle dynamic", Dyn2OK(D.tilt, p.N, first, p.T, Y2Pos)>>,
        <<"tilt velocity dynamic", Dyn2OK(D.tiltVel, p.N, first, p.T, Y2Vel)>>,
        <<"inverse of the tilt dynamics", InvOK(D.tilt) /\ InvOK(D.tiltVel)>> })

DynBad(s) ==
  LET p == s.done IN
  IF ~s.ready THEN {}
  ELSE IF s.kind = "lip"
       THEN Bad({ <<"number of feedback indices", Len(O.d) = p.T \div p.fb>>, <<"default index", O.last>> })
            \cup UNION {IndexBad(O.d[k], p, k * p.fb) \cup CopBad(O.d[k], p, k * p.fb) : k \in 1..Len(O.d)}
       ELSE IF s.kind = "base"
       THEN IndexBad(O.d[1], p, p.T) \cup CopBad(O.d[1], p, p.T) \cup TiltBad(O.d[1], p, p.T)
       ELSE IF s.kind = "tools"
       THEN IndexBad(O.d[1], p, p.fb) \cup CopBad(O.d[1], p, p.fb) \cup TiltBad(O.d[1], p, p.fb)
       ELSE IndexBad(O.d[1], p, p.T)
UpBad ==
  LET e == Integrate(<<6 * A(1), 2 * A(2), A(3)>>, A(4), A(5)) IN
  Bad({ <<"state update", \A k \in 1..Len(O.up) :
            /\ Eq(O.up[k][1], e[1]) /\ Eq(O.up[k][2], 3 * e[2]) /\ Eq(O.up[k][3], 6 * e[3])>> })

After ==
  CASE Ev.op = "reset" -> Model(A(1), A(2), A(3), A(4) = 1)
    [] Ev.op = "N" -> SetN(st, A(1))
    [] Ev.op = "T" -> SetT(st, A(1))
    [] Ev.op = "fb" -> SetFb(st, A(1))
    [] Ev.op = "h" -> SetH(st, A(1))
    [] Ev.op = "g" -> SetG(st, <<A(1), A(2), A(3)>>)
    [] Ev.op = "m" -> SetMass(st, A(1))
    [] Ev.op = "M" -> SetTotal(st, A(1))
    [] Ev.op = "compute" -> Compute(st)
    [] OTHER -> st
Bads(s) ==
  IF Ev.crash THEN { <<"the call did not return", FALSE>> }
  ELSE IF Ev.op = "up" THEN UpBad ELSE DynBad(s)
TInit == st = Model("lip", 1, 1, TRUE) /\ l = 1 /\ skip = FALSE
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ IF skip /\ Ev.op # "reset" THEN UNCHANGED <<st, skip>>
            ELSE LET s == After IN
                 /\ \A x \in Bads(s) : PrintT("BAD " \o ToString(l) \o " " \o Prop \o " " \o x[1])
                 /\ st' = s /\ skip' = Ev.crash
TSpec == TInit /\ [][TNext]_<<st, l, skip>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
