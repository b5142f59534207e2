------------------------------ MODULE TraceZeb ------------------------------
(***************************************************************************)
(* Judges recorded histories of the wheeled-base controller (C13..C19).    *)
(* The controller state is kept by ZebWalkgen's ZCall and DoSolve; at      *)
(* every solve the program handed to the solver and the states reported    *)
(* afterwards are compared with the specified ones.                        *)
(***************************************************************************)
EXTENDS ZebWalkgen, Json, IOUtils, TLC
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* next: the last call was a successful solve of the specified program
VARIABLES w, l, skip, next
zvars == <<w, l, skip, next>>
Ev == Trace[l]
O == Ev.o
Report(B) == \A x \in B : PrintT("BAD " \o ToString(l) \o " " \o x[1] \o " " \o x[2])

Tilted == w.wt[6] > 0 \/ w.wt[7] > 0
TInit == w = ZStart /\ l = 1 /\ skip = FALSE /\ next = FALSE

CostOK == LET T == TLCEval(Tables(w)) IN CostNear(O, T, IF Tilted THEN TiltRel(T.H[O.k][O.k], Ev.rel) ELSE Ev.rel)
RowsOK(sig) == \A i \in 1..Len(Ev.ls) : SegNear(Ev.float, O.seg[i], ProgramLimits(w, Line(w, Ev.ls[i][1], Ev.ls[i][2]), sig))

\* ------------------------------------------------------------------ verdicts -------------
\* observed states are thousandths
StNear(o, x) == \A i \in 1..3 : GAbs(o[i] - 1000 * x[i]) <= 2 + Ev.st + (1000 * GAbs(x[i])) \div Ev.rs
StatesOK(v) == StNear(O.cx, v.c[1]) /\ StNear(O.cy, v.c[2]) /\ StNear(O.bx, v.b[1]) /\ StNear(O.by, v.b[2])
Only(S) == \A i \in 1..4 : w.cfg[i] = 1 => i \in S
Runs(p) == Prop = p
Bad(v) ==
  LET good == O.sizes IN
  CASE Runs("C13") -> {x \in {
         << "C13", "a program is submitted", O.calls = 1 >>,
         << "C13", "dimensions of the program", good >>,
         << "C13", "feasible set of the program", ~good \/ RowsOK(1) \/ RowsOK(-1) >>,
         << "C13", "cost of the program", ~good \/ CostOK >> } : ~x[3]}
    [] Runs("C14") /\ Only({1, 2}) -> IF ~good \/ RowsOK(1) THEN {}
         ELSE IF RowsOK(-1) THEN { << "C14", "polygon rows reflected through the origin" >> }
         ELSE { << "C14", "containment in the polygons" >> }
    [] Runs("C15") /\ Only({3, 4}) -> IF ~good \/ RowsOK(1) THEN {} ELSE { << "C15", "motion rows and jerk bounds" >> }
    [] Runs("C16") /\ ~Tilted -> IF ~good \/ CostOK THEN {} ELSE { << "C16", "cost of the objectives" >> }
    [] Runs("C17") /\ Tilted -> IF ~good \/ CostOK THEN {} ELSE { << "C17", "cost of the tilt objectives" >> }
    [] Runs("C18") -> IF O.calls = 0 \/ O.warm = 0 \/ O.wd <= 10 THEN {} ELSE { << "C18", "hot start with other matrices" >> }
    [] Runs("C19") -> {x \in {
         << "C19", "the status of the solver is returned", O.calls # 1 \/ O.ret = (Ev.code = 1) >>,
         << "C19", "states after the first jerks of the plan", Ev.code # 1 \/ O.calls # 1 \/ StatesOK(v) >>,
         << "C19", "the next program starts from the plan", ~good \/ ~next \/ CostOK >> } : ~x[3]}
    [] Runs("C27") -> IF O.calls = 1 /\ good /\ (RowsOK(1) \/ RowsOK(-1)) /\ CostOK /\ O.ret = (Ev.code = 1)
                         /\ (Ev.code # 1 \/ StatesOK(v)) THEN {} ELSE { << "C27", "program and states of the wheeled-base controller" >> }
    [] OTHER -> {}

Legal == Ev.op = "solve" => Ready(w) /\ (Tilted => TiltOK(w)) /\ Len(Ev.plan) = 4 * w.N
Solve ==
  LET v == DoSolve(w, Ev.plan, Ev.fb) IN
  /\ Report(Bad(v))
  \* a deviating history is not followed further
  /\ skip' = (O.calls # 1 \/ ~O.sizes \/ Ev.code # 1 \/ ~StatesOK(v))
  /\ w' = IF skip' THEN w ELSE v
  /\ next' = (~skip' /\ Runs("C19") /\ CostOK)
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op # "reset" /\ skip
     THEN UNCHANGED <<w, skip, next>>
     ELSE /\ Assert(Legal, <<"illegal history at line", l>>)
          /\ IF Ev.crash THEN /\ Report({<<"ALL", "the call did not return">>}) /\ skip' = TRUE /\ UNCHANGED <<w, next>>
             ELSE IF Ev.op = "solve" THEN Solve
             ELSE w' = ZCall(w, Ev.op, Ev.a) /\ skip' = FALSE /\ next' = FALSE
TSpec == TInit /\ [][Next]_zvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
