----------------------------- MODULE TraceTraj ------------------------------
(***************************************************************************)
(* Judges recorded histories of the trajectory generator (C20, C18): its   *)
(* state is kept by TrajWalkgen's JCall and JSolve; at every solve the     *)
(* program handed to the solver and what is reported afterwards are        *)
(* compared with the specified ones.                                       *)
(***************************************************************************)
EXTENDS TrajWalkgen, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, l, skip
jvars == <<w, l, skip>>
Ev == Trace[l]
O == Ev.o
Report(B) == \A x \in B : PrintT("BAD " \o ToString(l) \o " " \o x[1] \o " " \o x[2])
TInit == w = JStart /\ l = 1 /\ skip = FALSE

\* observed numbers are thousandths
ObsNear(o, x) == GAbs(o - 1000 * x) <= 2 + Ev.st + (1000 * GAbs(x)) \div Ev.rs
StateOK(v) == \A i \in 1..3 : ObsNear(O.s[i], v.s[i])
RowsOK == \A i \in 1..Len(Ev.ls) : SegNear(Ev.float, O.seg[i], JLimits(w, Ev.ls[i][1], Ev.ls[i][2]))
Bad(v) ==
  LET good == O.sizes IN
  CASE Prop \in {"C20", "C27"} -> {x \in {
         << Prop, "a program is submitted", O.calls = 1 >>,
         << Prop, "dimensions of the program", good >>,
         << Prop, "limits of the program", ~good \/ RowsOK >>,
         << Prop, "cost of the program", ~good \/ CostNear(O, JTable(w), Ev.rel) >>,
         << Prop, "the status of the solver is returned", O.calls # 1 \/ O.ret = (Ev.code = 1) >>,
         << Prop, "state after the first jerk of the plan", Ev.code # 1 \/ O.calls # 1 \/ StateOK(v) >>,
         << Prop, "first jerk of the plan", Ev.code # 1 \/ O.calls # 1 \/ ObsNear(O.jerk, v.X[1]) >> } : ~x[3]}
    [] Prop = "C18" -> IF O.calls = 0 \/ O.warm = 0 \/ O.wd <= 10 THEN {} ELSE { << "C18", "hot start with other matrices" >> }
    [] OTHER -> {}
Legal == Ev.op = "solve" => JReady(w) /\ Len(Ev.plan) = w.N
Solve ==
  LET v == JSolve(w, Ev.plan, Ev.fb) IN
  /\ Report(Bad(v))
  \* a deviating history is not followed further
  /\ skip' = (O.calls # 1 \/ ~O.sizes \/ Ev.code # 1 \/ ~StateOK(v))
  /\ w' = IF skip' THEN w ELSE v
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Ev.op # "reset" /\ skip
     THEN UNCHANGED <<w, skip>>
     ELSE /\ Assert(Legal, <<"illegal history at line", l>>)
          /\ IF Ev.crash THEN /\ Report({<<"ALL", "the call did not return">>}) /\ skip' = TRUE /\ UNCHANGED w
             ELSE IF Ev.op = "solve" THEN Solve
             ELSE w' = JCall(w, Ev.op, Ev.a) /\ skip' = FALSE
TSpec == TInit /\ [][Next]_jvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
