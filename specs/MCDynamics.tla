----------------------------- MODULE MCDynamics -----------------------------
(***************************************************************************)
(* Setter histories of the prediction models.  Exhaustive: every           *)
(* transition of the bounded parameter graph is printed and executed on    *)
(* the real classes.  Random: longer histories over wider values.          *)
(***************************************************************************)
EXTENDS Dynamics, Json
CONSTANTS Kinds, Ns, Ts, Hs, Gs, Ms, Random, Depth
HsC == {16, 11}
GsC == { << 0, 0, 32 >>, << 3, -5, 64 >> }
HsW == {0, 3, 8, 12, 16, 21}
GsW == { << 0, 0, 32 >>, << 3, -5, 64 >>, << -7, 2, 16 >>, << 1, 1, -32 >> }
VARIABLES st, act, hist
vars == <<st, act, hist>>

Autos == IF Random THEN {TRUE, FALSE} ELSE {TRUE}
Init == \E kind \in Kinds, n \in Ns, t \in Ts, a \in Autos :
  /\ kind = "tools" => a
  /\ st = Model(kind, n, t, a)
  /\ act = <<"reset", kind, n, t, IF a THEN 1 ELSE 0>>
  /\ hist = <<act>>
Do(a, s) == act' = a /\ st' = s /\ hist' = IF Random THEN Append(hist, a) ELSE hist
Fbs == {f \in 1..12 : st.p.T % f = 0 \/ (st.kind = "tools" /\ f <= st.p.T)}
Next ==
  \/ \E n \in Ns : n # st.p.N /\ Do(<<"N", n>>, SetN(st, n))
  \/ \E t \in Ts : t # st.p.T /\ Do(<<"T", t>>, SetT(st, t))
  \/ \E f \in Fbs : f # st.p.fb /\ CanSetFb(st, f) /\ Do(<<"fb", f>>, SetFb(st, f))
  \/ st.kind # "nodyn" /\ \E h \in Hs : h # st.p.h /\ Do(<<"h", h>>, SetH(st, h))
  \/ st.kind # "nodyn" /\ \E g \in Gs : g # st.p.g /\ Do(<<"g", g[1], g[2], g[3]>>, SetG(st, g))
  \/ st.kind # "nodyn" /\ \E m \in Ms : m # st.p.m /\ CanSetMass(st, m) /\ Do(<<"m", m>>, SetMass(st, m))
  \/ st.kind # "nodyn" /\ \E m \in Ms : m # st.p.M /\ CanSetTotal(st, m) /\ Do(<<"M", m>>, SetTotal(st, m))
  \/ Random /\ st.kind # "tools" /\ Do(<<"compute">>, Compute(st))
  \/ Random /\ \E d \in {1, 3, 4} :
       Do(<<"up", RandomElement(-9..9), RandomElement(-9..9), RandomElement(-9..9), RandomElement(-9..9), d>>, st)
Spec == Init /\ [][Next]_vars
View == st
EmitEdge == PrintT("EDGE " \o ToJson([s |-> st, a |-> act', t |-> st']))
EmitInit == TLCGet("level") = 1 => PrintT("INIT " \o ToJson([s |-> st, a |-> act]))
EmitHist == TLCGet("level") = Depth => PrintT("HIST " \o ToJson(hist))

Firsts == {f \in 1..st.p.T : f % st.p.fb = 0 \/ st.kind = "tools"}
SuperpositionInv == \A f \in Firsts :
  Superposition(<<3, -2, 1>>, [i \in 1..st.p.N |-> ((i * i * 7) % 5) - 2], f, st.p.T)
\* the CoP of a state at rest is the CoM position (times m / M)
RestInv == \A x \in {6, -12} : YCop(<<x, 0, 0>>, st.p.m, Rho(st.p)) = st.p.m * x
RhoInv == st.kind # "nodyn" => RhoExact(st.p)
=============================================================================
