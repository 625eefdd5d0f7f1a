------------------------------- MODULE League -------------------------------
(***************************************************************************)
(* A league: the state machine a program that uses the library runs.       *)
(*                                                                         *)
(* The ladder holds one rating per player, all of one rating system.  The  *)
(* actions are the things a league does - a game, a round in which the     *)
(* players meet with the ratings they had before it, sitting out a period, *)
(* a game of two teams or of several ranked teams, moving the whole ladder *)
(* to another rating system, saving and loading it.  Each action is one or *)
(* more API calls; its parameter res holds their observed results (from    *)
(* the real library, from the laws, or from a recorded trace).             *)
(*                                                                         *)
(* Conformance says every observed result is one the laws admit; the other *)
(* invariants are about the whole history of the ladder.                   *)
(***************************************************************************)
EXTENDS Props

CONSTANT Via        \* "fn": the league calls the free functions, "trait": it is written against the traits

VARIABLES sys, cfg, ladder,
          base,       \* the ladder when the current system was adopted
          games,      \* games of each player since then
          rated,      \* rating updates of each player since then
          last        \* the last action, its calls and their results
lvars == <<sys, cfg, ladder, base, games, rated, last>>

Slots == 1..Len(ladder)
Zeros(l) == [i \in 1..Len(l) |-> 0]
Here == [sys |-> sys, cfg |-> cfg, x |-> 0]        \* the parameters of calls about this league

LeagueInit(s, c, l) ==
  /\ sys = s /\ cfg = c /\ ladder = l /\ base = l
  /\ games = Zeros(l) /\ rated = Zeros(l)
  /\ last = [act |-> "start", calls |-> <<>>, before |-> l]

\* ---- The calls of each action -----------------------------------------------------------
By(c) == [c EXCEPT !.via = Via]
PlayCalls(i, j, o) == <<By(Rate(Here, ladder[i], ladder[j], o))>>
IdleCalls(i) == <<By(Period(Here, ladder[i], <<>>))>>
\* Round: res[i][j] is the result of i against j, "-" if they do not meet
Between(i, j, o) == Game(ladder[j], o, i < j, IF i < j THEN cfg ELSE Mirror(sys, cfg))
RoundGames(i, table) ==
  LET opp == SelectSeq([j \in Slots |-> j], LAMBDA j : j # i /\ table[i][j] # "-")
  IN  [k \in 1..Len(opp) |-> Between(i, opp[k], table[i][opp[k]])]
RoundCalls(table) == [i \in Slots |-> By(Period(Here, ladder[i], RoundGames(i, table)))]
TeamCalls(m, o) == <<By(Teams(Here, SubSeq(ladder, 1, m), SubSeq(ladder, m + 1, Len(ladder)), o))>>
MultiCalls(ranks) == <<By(Multi(Here, [i \in Slots |-> <<ladder[i]>>], ranks, <<>>))>>
MoveCalls(to) == [i \in Slots |-> [op |-> "conv", from |-> sys, to |-> to, a |-> ladder[i]]]
SaveCalls == [i \in Slots |-> [op |-> "serde", sys |-> sys, via |-> "trait", a |-> ladder[i]]]

AllFine(res) == \A k \in 1..Len(res) : res[k].st = "ok"
Logged(act, cs, res) ==
  last' = [act |-> act, calls |-> [k \in 1..Len(cs) |-> [c |-> cs[k], r |-> res[k]]], before |-> ladder]
\* After a call that did not return normally there is no next ladder
Or(res, new) == ladder' = IF AllFine(res) THEN new ELSE ladder

Play(i, j, o, res) ==
  /\ i # j
  /\ Logged("play", PlayCalls(i, j, o), res)
  /\ Or(res, [ladder EXCEPT ![i] = res[1].out[1], ![j] = res[1].out[2]])
  /\ games' = [games EXCEPT ![i] = @ + 1, ![j] = @ + 1]
  /\ rated' = [rated EXCEPT ![i] = @ + 1, ![j] = @ + 1]
  /\ UNCHANGED <<sys, cfg, base>>
Idle(i, res) ==
  /\ Logged("idle", IdleCalls(i), res)
  /\ Or(res, [ladder EXCEPT ![i] = res[1].out])
  /\ rated' = [rated EXCEPT ![i] = @ + 1]
  /\ UNCHANGED <<sys, cfg, base, games>>
Round(table, res) ==
  /\ Logged("round", RoundCalls(table), res)
  /\ Or(res, [i \in Slots |-> res[i].out])
  /\ games' = [i \in Slots |-> games[i] + Len(RoundGames(i, table))]
  /\ rated' = [i \in Slots |-> rated[i] + 1]
  /\ UNCHANGED <<sys, cfg, base>>
TeamGame(m, o, res) ==
  /\ sys \in TeamSystems /\ m \in 1..(Len(ladder) - 1)
  /\ Logged("teams", TeamCalls(m, o), res)
  /\ Or(res, res[1].out[1] \o res[1].out[2])
  /\ games' = [i \in Slots |-> games[i] + 1]
  /\ rated' = [i \in Slots |-> rated[i] + 1]
  /\ UNCHANGED <<sys, cfg, base>>
MultiGame(ranks, res) ==
  /\ sys \in TeamSystems
  /\ Logged("multi", MultiCalls(ranks), res)
  /\ Or(res, [i \in Slots |-> res[1].out[i][1]])
  /\ games' = [i \in Slots |-> games[i] + 1]
  /\ rated' = [i \in Slots |-> rated[i] + 1]
  /\ UNCHANGED <<sys, cfg, base>>
Move(to, res) ==
  /\ <<sys, to>> \in Conversions
  /\ Logged("move", MoveCalls(to), res)
  /\ sys' = to /\ cfg' = DefaultConfig(to)
  /\ ladder' = [i \in Slots |-> res[i].out] /\ base' = ladder'
  /\ games' = Zeros(ladder) /\ rated' = Zeros(ladder)
Save(res) ==
  /\ Logged("save", SaveCalls, res)
  /\ Or(res, [i \in Slots |-> res[i].out.back])
  /\ UNCHANGED <<sys, cfg, base, games, rated>>

\* ---- Where the laws are stated ------------------------------------------------------------
\* EGF and TrueSkill are stated for games in which neither side is out of reach.
InReach(i, j) ==
  CASE sys = "egf" -> EgfRoom(cfg.h, ladder[i], ladder[j])
    [] sys = "ts" -> TsFits(cfg, <<ladder[i]>>, <<ladder[j]>>)
    [] OTHER -> TRUE
AllInReach == \A i, j \in Slots : i # j => InReach(i, j)
\* The factor graph works on sums of differences: closer together
Close == sys # "ts" \/ \A i, j \in Slots : TsWidth(cfg, <<ladder[i]>>, <<ladder[j]>>) \preceq FI(4)
TeamsReach(m) == sys # "ts" \/ TsFits(cfg, SubSeq(ladder, 1, m), SubSeq(ladder, m + 1, Len(ladder)))
MoveFits(to) == to = "uscf" => \A i \in Slots : SuccEq(ladder[i].r, F100)

\* ---- Invariants ---------------------------------------------------------------------------------
Conformance == \A k \in 1..Len(last.calls) : Conforms(last.calls[k].c, last.calls[k].r)
Finite == \A i \in Slots : FiniteRating(ladder[i])
Floors ==
  \A i \in Slots :
    CASE sys = "uscf" -> SuccEq(ladder[i].r, F100) \/ games[i] = 0
      [] sys = "egf" -> SuccEq(ladder[i].r, FI(-900)) \/ games[i] = 0
      [] OTHER -> TRUE
Counters ==
  \A i \in Slots :
    CASE sys = "uscf" -> ladder[i].n = base[i].n + games[i]
      [] sys = "dwz" -> ladder[i].n = base[i].n + rated[i] /\ ladder[i].a = base[i].a
      [] sys = "ingo" -> ladder[i].a = base[i].a
      [] OTHER -> TRUE
Certainty ==
  \A i \in Slots :
    CASE sys \in {"glicko", "sticko", "gboost"} -> F0 \prec ladder[i].d /\ (ladder[i].d \preceq F350 \/ rated[i] = 0)
      [] sys = "glicko2" -> F0 \prec ladder[i].d /\ F0 \prec ladder[i].v
      [] sys = "wl" -> F0 \prec ladder[i].d /\ ladder[i].d \preceq (base[i].d ++ FS("1e-9"))
      [] sys = "ts" -> /\ F0 \prec ladder[i].d
                       /\ Sq(ladder[i].d) \preceq ((Sq(base[i].d) ++ (FI(games[i]) ** Sq(cfg.tau))) ++ FS("1e-6"))
      [] OTHER -> TRUE
\* What a game gives one player it takes from the other
Zero_Sum ==
  (last.act = "play" /\ sys = "elo") =>
     FNear(SumOver(LAMBDA p : p.r, ladder), SumOver(LAMBDA p : p.r, last.before), FS("1e-9"))
LeagueOK == Conformance /\ Finite /\ Floors /\ Counters /\ Certainty /\ Zero_Sum
=============================================================================
