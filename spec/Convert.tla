------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Initial ratings and conversions between rating systems.                 *)
(***************************************************************************)
EXTENDS Common

R(x) == [r |-> x]
Mu0 == FI(25)
Sigma0 == FI(25) // FI(3)
Uscf_Initial(age) == IF age < 2 THEN F100 ELSE IF age >= 26 THEN FI(1300) ELSE FI(50 * age)

\* The rating a system gives to a newcomer of the given age
Initial(sys, age) ==
  CASE sys \in {"elo", "fifa"} -> R(F1000)
    [] sys = "egf" -> R(F0)
    [] sys = "dwz" -> [r |-> F1000, n |-> 1, a |-> age]
    [] sys = "ingo" -> [r |-> FI(230), a |-> age]
    [] sys = "uscf" -> [r |-> Uscf_Initial(age), n |-> 0]
    [] sys \in {"glicko", "sticko", "gboost"} -> [r |-> FI(1500), d |-> F350]
    [] sys = "glicko2" -> [r |-> FI(1500), d |-> F350, v |-> FS("0.06")]
    [] sys \in {"wl", "ts"} -> [r |-> Mu0, d |-> Sigma0]

Convert(from, to, p) ==
  CASE from = "elo" /\ to = "fifa" -> R(p.r)
    [] from = "fifa" /\ to = "elo" -> R(p.r)
    [] from = "elo" /\ to = "dwz" -> [r |-> p.r, n |-> 6, a |-> 26]
    [] from = "dwz" /\ to = "elo" -> R(p.r)
    [] from = "elo" /\ to = "ingo" -> [r |-> FI(355) -- (p.r // FI(8)), a |-> 26]
    [] from = "ingo" /\ to = "elo" -> R(FI(2840) -- (FI(8) ** p.r))
    [] from = "elo" /\ to = "uscf" ->
         IF Succ(p.r, FI(2000)) THEN [r |-> FI(180) ++ (FS("0.94") ** p.r), n |-> 10]
         ELSE [r |-> FI(20) ++ (FS("1.02") ** p.r), n |-> 5]
    [] from = "uscf" /\ to = "elo" ->
         IF Succ(p.r, FI(2060)) THEN R((p.r -- FI(180)) // FS("0.94")) ELSE R((p.r -- FI(20)) // FS("1.02"))
    [] to = "glicko2" -> [r |-> p.r, d |-> p.d, v |-> FS("0.06")]
    [] OTHER -> [r |-> p.r, d |-> p.d]       \* within the Glicko family, and Weng-Lin <-> TrueSkill
Conversions ==
  {<<"elo", "fifa">>, <<"fifa", "elo">>, <<"elo", "dwz">>, <<"dwz", "elo">>, <<"elo", "ingo">>,
   <<"ingo", "elo">>, <<"elo", "uscf">>, <<"uscf", "elo">>, <<"wl", "ts">>, <<"ts", "wl">>}
  \cup {<<a, b>> \in {"glicko", "glicko2", "sticko", "gboost"} \X {"glicko", "glicko2", "sticko", "gboost"} : a # b}
=============================================================================
