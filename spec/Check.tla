------------------------------- MODULE Check -------------------------------
(***************************************************************************)
(* The machine TLC explores to decide a property of module Props.          *)
(*                                                                         *)
(* Every step performs one experiment: some API calls (on the real library *)
(* with Binding = "impl") whose calls and observed results become the      *)
(* state variable log.  Two kinds of behaviours are interleaved:           *)
(*   - from a "grid" state, one step to every point of an exhaustively     *)
(*     enumerated grid of corner cases of a system and configuration;      *)
(*   - from a "lane" state, a chain of pseudo-random experiments.          *)
(* The invariant says that every experiment was accepted.                  *)
(***************************************************************************)
EXTENDS Props

CONSTANTS Prop,        \* the property
          Cases,       \* number of pseudo-random experiments
          Lanes,       \* ... distributed over so many chains
          Focus        \* systems to favour in them (those whose sources changed)
ASSUME Cases \in Nat /\ Lanes \in Nat \ {0} /\ Focus \subseteq AllSet

VARIABLES pc,          \* what this behaviour is doing
          log          \* the experiment of the last step

Plan == PlanOf(Prop)
\* The part of the plan about the favoured systems; three quarters of the experiments when there is one
Favoured ==
  LET own(p) == [p EXCEPT !.systems = SelectSeq(p.systems, LAMBDA s : s \in Focus)]
  IN  SelectSeq([n \in 1..Len(Plan) |-> own(Plan[n])], LAMBDA p : p.systems # <<>>)
PlanAt(i) == IF Favoured = <<>> \/ Chance(i, 3, 4) THEN Plan ELSE Favoured
None == [ok |-> TRUE, known |-> "", calls |-> <<>>]
Perform(kind, P) == [prop |-> Prop, kind |-> kind, params |-> P, res |-> Experiment(Prop, kind, P)]

Init ==
  /\ log = [prop |-> Prop, kind |-> "none", params |-> 0, res |-> None]
  /\ \/ \E i \in 1..Lanes : pc = [at |-> "lane", i |-> i]
     \/ \E n \in 1..Len(Plan) : \E k \in 1..Len(Plan[n].systems) :
          \E cfg \in ConfigCorners(Plan[n].systems[k]) :
            pc = [at |-> "grid", kind |-> Plan[n].kind, sys |-> Plan[n].systems[k], cfg |-> cfg]

RandomExperiment ==
  /\ pc.at = "lane" /\ pc.i <= Cases
  /\ LET i == pc.i
         p == Pick(i, 1, PlanAt(i))
         s == Pick(i, 2, p.systems)
     IN  /\ log' = Perform(p.kind, Force(IF s = "ts" /\ Prop \in FarProps /\ Chance(i, 5, 6) THEN FarAt(p.kind, i) ELSE ParamsAt(p.kind, s, i)))
         /\ pc' = [at |-> "lane", i |-> i + Lanes]
GridExperiment ==
  /\ pc.at = "grid"
  /\ \E P \in Grid(pc.kind, pc.sys, pc.cfg) :
       /\ log' = Perform(pc.kind, P)
       /\ pc' = [at |-> "done"]

Next == RandomExperiment \/ GridExperiment
Spec == Init /\ [][Next]_<<pc, log>>

\* Bookkeeping for the evidence: what was exercised, and how often nothing was to be tested
Noted ==
  \/ log.kind = "none"
  \/ /\ Mark(IF log.res.calls = <<>> THEN "skipped" ELSE log.params.sys \o "/" \o log.kind)
     /\ log.res.known = "" \/ Mark("known:" \o log.res.known)
     /\ Len(log.res.calls) = 0 \/ Sample(log)
Holds == log.res.ok \/ Report(Prop, log)
=============================================================================
