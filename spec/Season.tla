------------------------------- MODULE Season -------------------------------
(***************************************************************************)
(* Behaviours of the league that TLC drives on the real library            *)
(* (Binding = "impl") or on the laws (Binding = "model"):                  *)
(*   "tree"   - every sequence of up to Depth actions of a league of three *)
(*              players in every system, exhaustively;                     *)
(*   "season" - long pseudo-random seasons of larger leagues.              *)
(***************************************************************************)
EXTENDS League

CONSTANTS Prop, Depth, Seasons, Length_,
          Focus    \* systems to favour in the seasons (those whose sources changed)

VARIABLE pc       \* [at, n, i]: the mode, the number of steps so far, the season's index

RunAll(cs) == [k \in 1..Len(cs) |-> Run(cs[k])]

TreeLadder(s) == LET c == SetToSeq(CornersOf(s)) IN <<c[1], c[2], c[4]>>
SeasonSystem(i) ==
  LET all == AllSystems
      own == SelectSeq(all, LAMBDA s : s \in Focus)
  IN  IF own = <<>> \/ Chance(i, 2, 3) THEN all[1 + (i % Len(all))] ELSE Pick(i, 1, own)
SeasonSize(i) == 2 + Rnd(i, 3, 5)
NearMu(s, p) == IF s \in TeamSystems THEN [p EXCEPT !.r = Clamp(p.r, F0, FI(50))] ELSE p
SeasonLadder(s, i) ==
  LET fresh == Chance(i, 4, 2)       \* everybody new, or a ladder with a history
  IN  [k \in 1..SeasonSize(i) |-> IF fresh THEN Initial(s, 10 + Rnd(i, 10 + k, 40)) ELSE NearMu(s, Rating(s, i, 100 + 40 * k))]
SeasonConfig(s, i) == IF s = "egf" THEN [h |-> Pick(i, 5, FSeq(<<"0", "0", "1", "-2">>))] ELSE Config(s, i, 50)

Init ==
  \/ \E k \in 1..Len(AllSystems) : \E c \in ConfigCorners(AllSystems[k]) :
       /\ LeagueInit(AllSystems[k], c, TreeLadder(AllSystems[k]))
       /\ pc = [at |-> "tree", n |-> 0, i |-> 0]
  \/ \E i \in 1..Seasons :
       /\ LeagueInit(SeasonSystem(i), SeasonConfig(SeasonSystem(i), i), SeasonLadder(SeasonSystem(i), i))
       /\ pc = [at |-> "season", n |-> 0, i |-> i]

Stopped == ~LeagueOK      \* nothing is built on a broken state
Tick == pc' = [pc EXCEPT !.n = @ + 1]

Table(f(_, _)) == [i \in Slots |-> [j \in Slots |-> IF i < j THEN f(i, j) ELSE IF i = j THEN "-" ELSE
                     LET x == f(j, i) IN IF x = "-" THEN "-" ELSE Inv(x)]]
\* ---- The actions with the binding filled in ----
DoPlay(i, j, o) == InReach(i, j) /\ Play(i, j, o, RunAll(PlayCalls(i, j, o)))
DoIdle(i) == Idle(i, RunAll(IdleCalls(i)))
DoRound(table) == AllInReach /\ Round(table, RunAll(RoundCalls(table)))
DoTeams(m, o) == sys \in TeamSystems /\ TeamsReach(m) /\ TeamGame(m, o, RunAll(TeamCalls(m, o)))
DoMulti(ranks) == sys \in TeamSystems /\ Close /\ MultiGame(ranks, RunAll(MultiCalls(ranks)))
DoMove(to) == <<sys, to>> \in Conversions /\ MoveFits(to) /\ Move(to, RunAll(MoveCalls(to)))
DoSave == Save(RunAll(SaveCalls))

TreeStep ==
  /\ pc.at = "tree" /\ pc.n < Depth /\ ~Stopped
  /\ \/ \E i, j \in Slots : \E o \in Outcomes : i < j /\ DoPlay(i, j, o)
     \/ \E i \in {1, 2} : DoIdle(i)
     \/ DoRound(Table(LAMBDA i, j : "W"))
     \/ DoRound(Table(LAMBDA i, j : IF j = 3 THEN "L" ELSE "D"))
     \/ \E o \in Outcomes : DoTeams(1, o)
     \/ \E r \in {<<1, 2, 3>>, <<2, 1, 1>>} : DoMulti(r)
     \/ \E k \in 1..Len(AllSystems) : DoMove(AllSystems[k])
  /\ Tick
SeasonStep ==
  /\ pc.at = "season" /\ pc.n < Length_ /\ ~Stopped
  /\ LET x == pc.i
         k == 10000 + 100 * pc.n
         n == Len(ladder)
         i == 1 + Rnd(x, k, n)
         j == 1 + ((i + Rnd(x, k + 1, n - 1)) % n)
         o == OutcomeAt(x, k + 2)
         m == Rnd(x, k + 3, 20)
         play == IF InReach(i, j) THEN DoPlay(i, j, o) ELSE DoIdle(i)
         targets == SelectSeq(AllSystems, LAMBDA s : <<sys, s>> \in Conversions /\ MoveFits(s))
     IN  CASE m < 8 -> play
           [] m < 10 -> DoIdle(i)
           [] m < 15 -> IF AllInReach
                        THEN DoRound(Table(LAMBDA a, b : IF Chance(x, k + 10 + 7 * a + b, 5) THEN "-" ELSE OutcomeAt(x, k + 11 + 7 * a + b)))
                        ELSE play
           [] m = 15 -> IF targets # <<>> /\ Chance(x, k + 4, 2) THEN DoMove(Pick(x, k + 5, targets)) ELSE DoSave
           [] OTHER -> IF sys \in TeamSystems
                       THEN (LET h == 1 + Rnd(x, k + 6, n - 1)
                             IN  IF Chance(x, k + 7, 2) /\ TeamsReach(h) THEN DoTeams(h, o)
                                 ELSE IF Close THEN DoMulti(RanksAt(n, x, k + 8)) ELSE play)
                       ELSE play
  /\ Tick
Next == TreeStep \/ SeasonStep
Spec == Init /\ [][Next]_<<lvars, pc>>

Noted == \/ last.act = "start"
         \/ /\ Mark(last.calls[1].r.st \o ":" \o last.act) /\ Mark(sys)
            /\ pc.n = 0 \/ Sample([step |-> pc, sys |-> sys, ladder |-> ladder, last |-> last])
\* the same season again, for the replay file: everything that led here
Holds == LeagueOK \/ Report(Prop, [prop |-> Prop, kind |-> pc, sys |-> sys, cfg |-> cfg, base |-> base, games |-> games,
                                   rated |-> rated, ladder |-> ladder, last |-> last])
=============================================================================
