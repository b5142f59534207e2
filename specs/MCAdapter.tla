------------------------------ MODULE MCAdapter ------------------------------
(***************************************************************************)
(* The adapter's contract explored exhaustively: orders of cold and hot    *)
(* solves with every outcome of the underlying solver.  ref is the program *)
(* (version of Q and A) the solver holds; a caller that keeps the contract *)
(* (same Q and A for a hot start) always gets its own program solved.      *)
(***************************************************************************)
EXTENDS QPSolving, TLC, Json
CONSTANTS Depth, Codes
VARIABLES st, ref, ver, hist
vars == <<st, ref, ver, hist>>
Init == st = "no" /\ ref = 0 /\ ver = 1 /\ hist = <<>>
Solve(warm, os, code, v) ==
  /\ warm /\ st # "no" => v = ref
  /\ \E k \in Kinds(st, warm) :
       /\ st' = After(st, k, code = 0)
       /\ ref' = IF k = "init" THEN v ELSE ref
  /\ ver' = v
  /\ hist' = Append(hist, <<IF warm THEN 1 ELSE 0, IF os THEN 1 ELSE 0, code, v>>)
Next == Len(hist) < Depth /\ \E warm, os \in BOOLEAN, code \in Codes, v \in 1..2 : Solve(warm, os, code, v)
Spec == Init /\ [][Next]_vars
\* the program solved is the caller's
SolvesTheCallersProgram == hist # <<>> => ref = ver
EmitHist == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
