------------------------------ MODULE TraceWg ------------------------------
(***************************************************************************)
(* Judges recorded histories of the whole humanoid controller (C11, C12,   *)
(* C18).  The walk itself follows FeetSupervisor.                          *)
(***************************************************************************)
EXTENDS TraceFeet, HumWalkgen

VARIABLE w
wvars == <<st, l, skip, w>>

WLegal ==
  CASE Ev.op = "step" -> CanSetStep(st, A(1)) /\ PeriodOK(st, A(1)) /\ HorizonOK(DoSetStep(st, A(1)))
    [] Ev.op = "ds" -> CanSetDS(st, A(1)) /\ PeriodOK(st, A(1))
    [] Ev.op = "N" -> st.front.type = DS /\ st.M = 0
    [] Ev.op = "solve" -> /\ FbOK(st, A(1)) /\ HorizonOK(st) /\ (st.ttnp = 0 => st.nxt # << >>)
                          /\ CanFeet(DoUpdate(st, A(1)), A(1)) /\ Len(w.ref) = 2 * st.N
                          /\ w.wt # <<0, 0, 0>>
    [] OTHER -> TRUE

\* (a solve is handled apart)
Config ==
  CASE Ev.op = "reset" ->
         [InitState(A(1), A(2)) EXCEPT !.copL = A(3), !.copR = A(4), !.kinL = A(5), !.kinR = A(6), !.hL = 5000, !.hR = 4000,
            !.L = [NoFoot EXCEPT !.y = <<10000, 0, 0>>], !.R = [NoFoot EXCEPT !.y = <<-10000, 0, 0>>]]
    [] Ev.op = "poly1" -> (CASE A(1) = 0 -> [st EXCEPT !.copL = A(2)] [] A(1) = 1 -> [st EXCEPT !.copR = A(2)]
                            [] A(1) = 2 -> [st EXCEPT !.kinL = A(2)] [] A(1) = 3 -> [st EXCEPT !.kinR = A(2)])
    [] Ev.op \in {"move", "step", "ds", "height", "place", "N"} -> After
    [] OTHER -> st
WConfig ==
  CASE Ev.op = "reset" -> WStart(A(1))
    [] Ev.op = "N" -> [w EXCEPT !.cop = [i \in 1..(2 * A(1)) |-> 0], !.ref = << >>]
    [] Ev.op = "move" -> IF st.front.type = DS THEN [w EXCEPT !.first = TRUE] ELSE w
    [] Ev.op = "wt" -> [w EXCEPT !.wt = Ev.a]
    [] Ev.op = "cfg" -> [w EXCEPT !.cfg = Ev.a]
    [] Ev.op = "rho" -> [w EXCEPT !.rho = A(1)]
    [] Ev.op = "ref" -> [w EXCEPT !.ref = Ev.a]
    [] Ev.op = "com" -> [w EXCEPT !.known = TRUE, !.exact = << <<A(1), A(2), A(3)>>, <<A(4), A(5), A(6)>> >>,
           !.com = << <<15625 * A(1), 156250 * A(2), 1562500 * A(3)>>, <<15625 * A(4), 156250 * A(5), 1562500 * A(6)>> >>]
    [] Ev.op = "comp" -> [w EXCEPT !.known = FALSE, !.com = << <<A(1), A(2), A(3)>>, <<A(4), A(5), A(6)>> >>]
    [] OTHER -> w

\* ------------------------------------------------------------------ a solve --------------
Tol == IF Ev.float THEN 20 ELSE 1
ComNear(o, e, t) == SAbs(o[1] - e[1]) <= 4 * t /\ SAbs(o[2] - e[2]) <= 4 * t /\ SAbs(o[3] - e[3]) <= 4 * t
SeqNear(o, e, t) == Len(o) = Len(e) /\ \A i \in 1..Len(o) : SAbs(o[i] - e[i]) <= t
FootNear(o, e, t) == CoNear(o.x, e.x, t) /\ CoNear(o.y, e.y, t) /\ CoNear(o.z, e.z, t)
\* the harness's own bookkeeping of the plan: a deviation comes from the supervisor (C03, C04)
SameWalk(s) == O.same /\ O.M = s.M /\ SeqNear(O.Xs, s.sx \o s.sy, 6)
PlanOK(s) ==
  /\ SeqNear(O.X, PlanCop(s, w), 6 + 20 * Tol)
  /\ \A k \in 1..2 : SAbs(O.Z[(k - 1) * s.N + 1] - FirstCop(s, w, Ev.j[k], k, IF s.M = 0 THEN 0 ELSE 100 * Ev.st[(k - 1) * s.M + 1]))
                     <= 12 + 20 * Tol

Scale == 100000
CostOK(s) ==
  LET T == CostTable(s, w, Ev.u, Ev.q)
      n == Len(T.g)
      kk == T.H[O.k][O.k]
      eH == [i \in 1..n |-> [j \in 1..n |-> ScaleDiv(Scale, T.H[i][j], kk)]]
      eg == [i \in 1..n |-> ScaleDiv(Scale, T.g[i], kk)]
      th == 3 + Scale \div Ev.rel
      tg == 3 + MaxAbs({SAbs(eg[i]) : i \in 1..n} \cup {Scale}) \div Ev.rel
  IN /\ O.pos /\ kk > 0
     /\ \A i, j \in 1..n : SAbs(O.H[i][j] - eH[i][j]) <= th
     /\ \A i \in 1..n : SAbs(O.g[i] - eg[i]) <= tg
ProbesOK(s) ==
  LET CE == CopEdges(s)
      KE == KinEdges(s)
  IN \A k \in 1..Len(Ev.p) : LET e == ProgramSide(s, w, CE, KE, Ev.p[k][1], Ev.p[k][2]) IN e # 0 => O.c[k] = e

ComOK == /\ ComNear(O.cx, Advance6(w.com[1], Ev.j[1], A(1)), Tol)
         /\ ComNear(O.cy, Advance6(w.com[2], Ev.j[2], A(1)), Tol)
\* (independence, C27, is judged by everything C11 and C12 compare)
P(p) == IF Prop = "C27" THEN "C27" ELSE p
Off(p) == Prop # p /\ (Prop # "C27" \/ p = "C18")
SolveBad(s, t) ==
  {x \in {
    <<P("C11"), "a program is submitted", Off("C11") \/ O.calls >= 1>>,
    <<P("C11"), "dimensions of the program and of the solver", Off("C11") \/ O.calls = 0 \/ O.sizes>>,
    <<P("C11"), "feasible set of the program", Off("C11") \/ O.calls = 0 \/ ~O.sizes \/ ProbesOK(s)>>,
    <<P("C11"), "cost of the program", Off("C11") \/ O.calls = 0 \/ ~O.sizes \/ ~Ev.exact \/ CostOK(s)>>,
    <<P("C12"), "success is reported", Off("C12") \/ O.ret = (Ev.code = 1)>>,
    <<P("C12"), "CoM motion", Off("C12") \/ O.calls = 0 \/ ~O.sizes \/ Ev.code # 1 \/ ComOK>>,
    <<P("C12"), "feet motion", Off("C12") \/ O.calls = 0 \/ ~O.sizes \/ Ev.code # 1 \/
         (FootNear(O.L, t.L, Ev.tol) /\ FootNear(O.R, t.R, Ev.tol))>>,
    <<"C18", "hot start with other matrices", Off("C18") \/ O.calls = 0 \/ O.warm = 0 \/ O.wd <= 10>>
  } : ~x[3]}

Solve ==
  LET s == DoUpdate(st, A(1))
      t == DoFeet(s, SubSeq(Ev.st, 1, s.M), SubSeq(Ev.st, s.M + 1, 2 * s.M), A(1))
  IN IF Ev.crash THEN /\ Report({<<"ALL", "the call did not return", FALSE>>})
                      /\ skip' = TRUE /\ UNCHANGED <<st, w>>
     ELSE IF ~SameWalk(s) THEN /\ Report(IF Prop = "C27" THEN {<<"C27", "walk of the supervisor", FALSE>>} ELSE {})
                               /\ skip' = TRUE /\ UNCHANGED <<st, w>>
     ELSE IF ~PlanOK(s)     \* the harness derives the plan from the states the controller reports
          THEN /\ Report({<<P("C12"), "CoM state as it was set", FALSE>>})
               /\ skip' = TRUE /\ UNCHANGED <<st, w>>
     ELSE /\ Report(SolveBad(s, t))
          /\ skip' = (O.calls = 0 \/ ~O.sizes \/ Ev.code # 1 \/ ~ComOK)
          /\ IF skip' THEN UNCHANGED <<st, w>>
             ELSE /\ st' = [t EXCEPT !.L = SeqRec(O.L), !.R = SeqRec(O.R)]
                  /\ w' = [w EXCEPT !.com = <<O.cx, O.cy>>, !.known = FALSE, !.first = FALSE, !.cop = O.Z]

WInit == TInit /\ w = WStart(1)
WNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op # "reset" /\ skip
     THEN UNCHANGED <<st, skip, w>>
     ELSE /\ Assert(Ev.op = "reset" \/ WLegal, <<"illegal history at line", l>>)
          /\ IF Ev.op = "solve" THEN Solve
             ELSE /\ Report(IF Ev.crash THEN {<<"ALL", "the call did not return", FALSE>>} ELSE {})
                  /\ skip' = Ev.crash
                  /\ st' = Config
                  /\ w' = WConfig
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
