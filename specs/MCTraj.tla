------------------------------- MODULE MCTraj --------------------------------
(***************************************************************************)
(* Histories of the trajectory generator: every setter in every order,     *)
(* with old and new values, between solves with arbitrary answers.  Facts  *)
(* about the specified program are checked in the states visited.          *)
(***************************************************************************)
EXTENDS TrajWalkgen, Json
CONSTANTS Depth, Emit
VARIABLES w, todo, hist
vars == <<w, todo, hist>>

Rnd(lo, hi) == RandomElement(lo..hi)
Vec(n, lo, hi) == [i \in 1..n |-> Rnd(lo, hi)]
Weights3 == { <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 1>>, <<2, 1, 50>>, <<0, 1, 100>>, <<20, 1, 0>>, <<5, 0, 3>> }
JArgs(op) ==
  CASE op = "N" -> << IF Rnd(1, 6) = 1 THEN Rnd(7, 12) ELSE Rnd(1, 6) >>
    [] op = "T" -> << RandomElement({1, 2, 3}) >>
    [] op = "vl" -> << Rnd(0, 60) >>
    [] op = "al" -> << Rnd(0, 12) >>
    [] op = "jl" -> << Rnd(0, 8) >>
    [] op = "wt" -> RandomElement(Weights3) \o << RandomElement({0, -9, -26, 4}) >>     \* and a common power of two
    [] op = "cfg" -> << RandomElement({0, 1, 1}) >>
    [] op = "vref" -> Vec(w.N, -30, 30)
    [] op = "pref" -> Vec(w.N, -40, 40)
    [] op = "s" -> << Rnd(-60, 60), 2 * Rnd(-6, 6), Rnd(-3, 3) >>
JSetters == {"T", "vl", "al", "jl", "wt", "cfg", "vref", "pref", "s"}
JRefs == {"vref", "pref"}
\* what the generator has a default for that is specified (JStart)
HasDefault == {"N", "T", "vl", "al", "cfg", "vref", "pref", "s"}

Init == w = JStart /\ todo = JSetters \cup {"N"} /\ hist = << <<"reset">> >>
Small == GAbs(w.s[1]) <= 400 /\ GAbs(w.s[2]) <= 40 /\ GAbs(w.s[3]) <= 9
CanSolve == todo = {} /\ JReady(w) /\ Small /\ w.N * w.T <= 12
Set(op) == \E a \in {JArgs(op)} :
  /\ w' = JCall(w, op, a)
  /\ hist' = Append(hist, <<op>> \o a)
  /\ todo' = (todo \ {op}) \cup (IF op = "N" THEN JRefs ELSE {})
Default == todo # {} /\ w.N = 1 /\ Rnd(1, 5) = 1 /\ \E op \in {RandomElement(HasDefault)} :
             op \in todo /\ todo' = todo \ {op} /\ UNCHANGED <<w, hist>>
Configure == todo # {} /\ \E op \in {RandomElement(todo)} : Set(op)
Again == todo # {} /\ Rnd(1, 5) = 1 /\ \E op \in {RandomElement(JSetters \ JRefs)} : Set(op)
Change == todo = {} /\ \E op \in {RandomElement(JSetters \cup {"N"})} : Set(op)
Rest == todo = {} /\ ~Small /\ Set("s")
ProbeOf(k, d, x) == << IF k = 0 THEN x ELSE [i \in 1..w.N |-> k * d[i]], d >>
Probe == CHOOSE v \in { ProbeOf(k, d, x) : k \in {Rnd(-1, 1)}, d \in {Vec(w.N, -2, 2)}, x \in {Vec(w.N, -2, 2)} } : TRUE
Solve(i) ==
  /\ CanSolve
  /\ \E plan \in {Vec(w.N, -4, 4)}, fb \in {RandomElement({1, 1, 2, 3})}, code \in {IF Rnd(1, 40) = 1 THEN 0 ELSE 1}, p1 \in {Probe}, p2 \in {Probe} :
       /\ w' = JSolve(w, plan, fb)
       /\ hist' = Append(hist, <<"solve", fb, code, plan, <<p1, p2>> >>)
       /\ UNCHANGED todo
Next == Configure \/ Default \/ Again \/ Change \/ Rest \/ \E i \in 1..4 : Solve(i)
Spec == Init /\ [][Next]_vars
EmitHist == (Emit /\ TLCGet("level") = Depth) => PrintT("HIST " \o ToJson(hist))

\* ------------------------------------------------------------------ facts ----------------
PlanInv == Len(w.X) = w.N
\* the gradient is the derivative of a quadratic cost with the symmetric Hessian
TableInv == CanSolve =>
  LET t == JTable(w)
      j == 1 + (TLCGet("level") % w.N)
      u == JTable([w EXCEPT !.X[j] = @ + 1])
  IN /\ \A a, b \in 1..w.N : t.H[a][b] = t.H[b][a]
     /\ u.H = t.H /\ \A i \in 1..w.N : u.g[i] - t.g[i] = t.H[i][j]
\* a plan whose prediction is the reference has no tracking error to correct
TrackInv == CanSolve =>
  LET y == Pred(w, w.X)
      v == [w EXCEPT !.vref = [i \in 1..w.N |-> y[i][2]], !.wt = <<1, 0, 0>>]
      q == [w EXCEPT !.pref = [i \in 1..w.N |-> y[i][1] \div 6], !.wt = <<0, 1, 0>>]
  IN /\ JTable(v).g = Zeros(w.N)
     /\ (\A i \in 1..w.N : y[i][1] % 6 = 0) => JTable(q).g = Zeros(w.N)
\* applying the first jerk for one sampling period reaches the first predicted sample
AdvanceInv == JSolve(w, w.X, w.T).s = Pred(w, w.X)[1]
\* the plan satisfies the limits exactly when its parameter is in the segment
SegmentInv == CanSolve =>
  LET d == [i \in 1..w.N |-> ((i * 7) % 5) - 2]
      S == JLimits(w, w.X, d)
      s == Segment(S, 0)
  IN (\A x \in S : x[1] >= 0) = (~s.none /\ s.lo <= 0 /\ s.hi >= 0)
=============================================================================
