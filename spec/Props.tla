------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties.  Each one is an experiment: a short behaviour of API    *)
(* calls derived from parameters P, and the relation that has to hold      *)
(* between the observed results.  An experiment evaluates to               *)
(*    [ok |-> does the property hold, known |-> a listed finding showed,   *)
(*     calls |-> the calls with their observed results]                    *)
(*                                                                         *)
(* With Binding = "impl" a call is performed on the real library, with     *)
(* Binding = "model" it is answered by the specification's own laws, which *)
(* checks the property on the design.                                      *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Binding, KnownFindings
Run(c) == IF Binding = "impl" THEN Impl(c) ELSE Force(Law(Force(c)))
T(c) == LET d == Force(c) IN [c |-> d, r |-> Run(d)]
\* ... as the first call of a new process
Anew(c) == LET d == Force(c) IN [c |-> d, r |-> IF Binding = "impl" THEN ImplFresh(d) ELSE Run(d)]

\* ... several calls at the same time, each in a thread of its own and n times over
Together(cs, n) ==
  LET d == Force([op |-> "together", calls |-> cs, reps |-> n])
  IN  [c |-> d, r |-> IF Binding = "impl" THEN Impl(d) ELSE [st |-> "ok", out |-> [i \in 1..Len(cs) |-> Run(cs[i])]]]

\* ---- Calls -------------------------------------------------------------------------------
Rate(P, a, b, o) == [op |-> "rate", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, a |-> a, b |-> b, o |-> o]
RateC(P, cfg, a, b, o) == [op |-> "rate", sys |-> P.sys, via |-> "fn", cfg |-> cfg, a |-> a, b |-> b, o |-> o]
Expect(P, cfg, a, b) == [op |-> "exp", sys |-> P.sys, via |-> "fn", cfg |-> cfg, a |-> a, b |-> b]
Period(P, a, gs) == [op |-> "period", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, a |-> a, gs |-> gs]
ExpectP(P, a, gs) == [op |-> "expp", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, a |-> a, gs |-> gs]
Decay(P, a) == [op |-> "decay", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, a |-> a]
Interval(P, a) == [op |-> "ci", sys |-> P.sys, via |-> "fn", a |-> a]
RankOf(a) == [op |-> "rank", sys |-> "ts", via |-> "fn", a |-> a]
Teams(P, ta, tb, o) == [op |-> "teams", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, ta |-> ta, tb |-> tb, o |-> o]
ExpectTeams(P, ta, tb) == [op |-> "expteams", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, ta |-> ta, tb |-> tb]
\* (far: the ranks are spread out over all numbers there are, see harness/src/sys.rs)
Multi(P, ts, ranks, wt) == [op |-> "multi", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, ts |-> ts, ranks |-> ranks, wt |-> wt,
                            far |-> LET m == Rnd(P.x, 960, 18) IN IF m <= 3 THEN m ELSE 0]
ExpectMulti(P, ts) == [op |-> "expmulti", sys |-> P.sys, via |-> "fn", cfg |-> P.cfg, ts |-> ts]
Quality(P, a, b) == [op |-> "quality", sys |-> "ts", via |-> "fn", cfg |-> P.cfg, a |-> a, b |-> b]
QualityP(P, a, gs) == [op |-> "qualityp", sys |-> "ts", via |-> "fn", cfg |-> P.cfg, a |-> a, gs |-> gs]
QualityTeams(P, ta, tb) == [op |-> "qualityteams", sys |-> "ts", via |-> "fn", cfg |-> P.cfg, ta |-> ta, tb |-> tb]
QualityMulti(P, ts, wt) == [op |-> "qualitymulti", sys |-> "ts", via |-> "fn", cfg |-> P.cfg, ts |-> ts, wt |-> wt]
ViaTrait(c) == [c EXCEPT !.via = "trait"]

AllOk(steps) == \A i \in 1..Len(steps) : steps[i].r.st = "ok"
Verdict(steps, ok) == [ok |-> ok, known |-> "", calls |-> steps]
\* ok is only evaluated when every call returned normally
IfAllOk(steps, ok(_)) == Verdict(steps, AllOk(steps) /\ ok([i \in 1..Len(steps) |-> steps[i].r.out]))

\* ---- Shorthands ----------------------------------------------------------------------------
InUnit(x) == F0 \preceq x /\ x \preceq F1
Better(sys, p, by) == IF sys = "ingo" THEN [p EXCEPT !.r = p.r -- by] ELSE [p EXCEPT !.r = p.r ++ by]
Skill(sys, p) == IF sys = "ingo" THEN FNeg(p.r) ELSE p.r          \* larger is better
\* Probabilities: TrueSkill's normal distribution is an approximation good to about 1e-7
NearP(sys, x, y) == FNear(x, y, IF sys = "ts" THEN FS("5e-7") ELSE Tol)
NearPSeq(sys, x, y) == NearSeqT(x, y, IF sys = "ts" THEN FS("5e-7") ELSE Tol)
Visible(x) == FS("1e-6") \prec x /\ x \prec FS("0.999999")
\* x grows to y, strictly where the curve is not saturated
Grows(x, y) == IF Visible(x) /\ Visible(y) THEN x \prec y ELSE x \preceq (y ++ FS("1e-9"))
Neutral(sys, cfg) == CASE sys = "egf" -> [cfg EXCEPT !.h = F0] [] sys = "sticko" -> [cfg EXCEPT !.gamma = F0]
                       [] sys = "gboost" -> [cfg EXCEPT !.eta = F0] [] OTHER -> cfg
Step(sys, x) ==
  CASE sys \in TeamSystems -> Pick(x, 901, FSeq(<<"0.5", "1", "2", "5", "10">>))
    [] sys = "egf" -> Pick(x, 901, FSeq(<<"1", "5", "10", "20", "50">>))
    [] sys = "ingo" -> Pick(x, 901, FSeq(<<"1", "5", "10", "20">>))
    [] OTHER -> Pick(x, 901, FSeq(<<"1", "10", "25", "50", "150", "400">>))
Shift(sys, x) ==
  CASE sys = "wl" -> Pick(x, 902, FSeq(<<"-10", "-3.5", "7", "20", "1000", "9000">>))
    [] sys = "ts" -> Pick(x, 902, FSeq(<<"-10", "-3.5", "7", "20">>))
    [] sys = "ingo" -> Pick(x, 902, FSeq(<<"-20", "12.5", "50">>))
    [] OTHER -> Pick(x, 902, FSeq(<<"-300", "-50.5", "10", "123.25", "400">>))
\* One game of a against b, half of the time with b listed first: the rating of a afterwards is out[s.me]
PlayedBy(P, a, b, o, k) == IF Chance(P.x, k, 2) THEN T(RateC(P, Mirror(P.sys, P.cfg), b, a, Inv(o))) ELSE T(Rate(P, a, b, o))
MySide(P, k) == IF Chance(P.x, k, 2) THEN 2 ELSE 1
\* ... and the same for two teams
TeamSide(P, ta, tb, o, k) == IF Chance(P.x, k, 2) THEN T(Teams(P, tb, ta, Inv(o))) ELSE T(Teams(P, ta, tb, o))
Up(p, by) == [p EXCEPT !.r = p.r ++ by]
UpTeam(t, by) == MapSeq(LAMBDA p : Up(p, by), t)
DenseRank(ranks, i) == 1 + Cardinality({ranks[k] : k \in {k \in 1..Len(ranks) : ranks[k] < ranks[i]}})
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotated(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]

\* ==== C01 Expected scores are complementary probabilities ======================================
C01_Pair(P) ==
  LET s1 == T(Expect(P, P.cfg, P.a, P.b))
      s2 == T(Expect(P, Mirror(P.sys, P.cfg), P.b, P.a))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o :
        /\ NearP(P.sys, o[1][1] ++ o[1][2], F1)
        /\ P.sys # "ingo" => InUnit(o[1][1]) /\ InUnit(o[1][2])
        /\ NearP(P.sys, o[1][1], o[2][2]) /\ NearP(P.sys, o[1][2], o[2][1]))
\* The finding listed for C03 (Glicko-Boost's period expectation ignores the colour) is not this
\* property's business
NoColour(P) == IF P.sys = "gboost" THEN MapSeq(LAMBDA g : [g EXCEPT !.w = TRUE], P.gs) ELSE P.gs
C01_Period(P) ==
  LET gs == NoColour(P)
      n == Len(gs)
      i == 1 + Rnd(P.x, 900, n)
      g == gs[i]
      back == IF P.sys = "gboost" THEN [P EXCEPT !.cfg = Mirror("gboost", P.cfg)] ELSE P
      there == Game(P.a, Inv(g.o), IF P.sys = "gboost" THEN TRUE ELSE ~g.w, IF P.sys = "egf" THEN Mirror("egf", g.cfg) ELSE g.cfg)
      s1 == T(ExpectP(P, P.a, gs))
      s2 == T(ExpectP(P, P.a, Reversed(gs)))
      s3 == T(ExpectP(P, P.a, <<g>>))
      s4 == T(ExpectP(back, g.q, <<there>>))
  IN  IF n = 0 THEN IfAllOk(<<s1>>, LAMBDA o : o[1] = <<>>)
      ELSE IfAllOk(<<s1, s2, s3, s4>>, LAMBDA o :
        /\ Len(o[1]) = n /\ Len(o[2]) = n /\ Len(o[3]) = 1 /\ Len(o[4]) = 1
        /\ P.sys # "ingo" => \A k \in 1..n : InUnit(o[1][k])
        /\ NearPSeq(P.sys, o[2], Reversed(o[1]))               \* one value per opponent, in order
        /\ NearP(P.sys, o[1][i], o[3][1])
        /\ NearP(P.sys, o[3][1] ++ o[4][1], F1))               \* the opponent expects the rest
C01_Teams(P) ==
  LET s1 == T(ExpectTeams(P, P.ta, P.tb))
      s2 == T(ExpectTeams(P, P.tb, P.ta))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o :
        /\ NearP(P.sys, o[1][1] ++ o[1][2], F1) /\ InUnit(o[1][1]) /\ InUnit(o[1][2])
        /\ NearP(P.sys, o[1][1], o[2][2]) /\ NearP(P.sys, o[1][2], o[2][1]))
C01_Multi(P) ==
  LET s1 == T(ExpectMulti(P, P.ts))
      s2 == T(ExpectMulti(P, Reversed(P.ts)))
      k == Rnd(P.x, 904, Len(P.ts))
      s3 == T(ExpectMulti(P, Rotated(P.ts, k)))
  IN  IfAllOk(<<s1, s2, s3>>, LAMBDA o :
        /\ Len(o[1]) = Len(P.ts)
        /\ \A i \in 1..Len(P.ts) : InUnit(o[1][i])
        /\ P.ts # <<>> => NearP(P.sys, FSum(o[1]), F1)
        /\ NearPSeq(P.sys, Reversed(o[1]), o[2])
        /\ NearPSeq(P.sys, Rotated(o[1], k), o[3]))

\* ==== C02 Expected scores grow with strength, and are even between equals ========================
C02_Pair(P) ==
  LET d == Step(P.sys, P.x)
      n == Neutral(P.sys, P.cfg)
      base == T(Expect(P, P.cfg, P.a, P.b))
      up == T(Expect(P, P.cfg, Better(P.sys, P.a, d), P.b))
      down == T(Expect(P, P.cfg, P.a, Better(P.sys, P.b, d)))
      even == T(Expect(P, n, P.a, [P.b EXCEPT !.r = P.a.r]))
      adv == T(Expect(P, n, P.a, P.b))
  IN  IfAllOk(<<base, up, down, even, adv>>, LAMBDA o :
        /\ Grows(o[1][1], o[2][1]) /\ Grows(o[2][2], o[1][2])
        /\ Grows(o[3][1], o[1][1]) /\ Grows(o[1][2], o[3][2])
        /\ NearP(P.sys, o[4][1], Half) /\ NearP(P.sys, o[4][2], Half)
        \* the stronger player is the favourite
        /\ Skill(P.sys, P.b) \prec Skill(P.sys, P.a) => Half \preceq (o[5][1] ++ FS("5e-7"))
        /\ Skill(P.sys, P.a) \prec Skill(P.sys, P.b) => o[5][1] \preceq (Half ++ FS("5e-7")))
C02_Period(P) ==
  LET d == Step(P.sys, P.x)
      n == Len(P.gs)
      i == 1 + Rnd(P.x, 904, n)
      base == T(ExpectP(P, P.a, P.gs))
      up == T(ExpectP(P, Better(P.sys, P.a, d), P.gs))
      down == T(ExpectP(P, P.a, [P.gs EXCEPT ![i].q = Better(P.sys, P.gs[i].q, d)]))
      level == T(ExpectP([P EXCEPT !.cfg = Neutral(P.sys, P.cfg)], P.a,
                         [k \in 1..n |-> [P.gs[k] EXCEPT !.q = [P.gs[k].q EXCEPT !.r = P.a.r], !.cfg = Neutral(P.sys, P.gs[k].cfg)]]))
  IN  IF n = 0 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<base, up, down, level>>, LAMBDA o :
        /\ \A m \in 1..4 : Len(o[m]) = n
        /\ \A k \in 1..n : Grows(o[1][k], o[2][k]) /\ NearP(P.sys, o[4][k], Half)
        /\ Grows(o[3][i], o[1][i])
        /\ \A k \in 1..n : k # i => NearP(P.sys, o[3][k], o[1][k]))
C02_Teams(P) ==
  LET d == Step(P.sys, P.x)
      j == 1 + Rnd(P.x, 903, Len(P.ta))
      base == T(ExpectTeams(P, P.ta, P.tb))
      k == 1 + Rnd(P.x, 904, Len(P.tb))
      up == T(ExpectTeams(P, [P.ta EXCEPT ![j].r = P.ta[j].r ++ d], P.tb))
      down == T(ExpectTeams(P, P.ta, [P.tb EXCEPT ![k].r = P.tb[k].r ++ d]))
      even == T(ExpectTeams(P, P.ta, Reversed(P.ta)))
      a == TeamMu(P.ta) b == TeamMu(P.tb)
  IN  IfAllOk(<<base, up, down, even>>, LAMBDA o :
        /\ Grows(o[1][1], o[2][1]) /\ Grows(o[2][2], o[1][2])
        /\ Grows(o[3][1], o[1][1]) /\ Grows(o[1][2], o[3][2])
        /\ NearP(P.sys, o[4][1], Half) /\ NearP(P.sys, o[4][2], Half)
        /\ b \prec a => Half \preceq (o[1][1] ++ FS("5e-7"))
        /\ a \prec b => Half \preceq (o[1][2] ++ FS("5e-7")))
C02_Multi(P) ==
  LET d == Step(P.sys, P.x)
      n == Len(P.ts)
      i == 1 + Rnd(P.x, 903, n)
      base == T(ExpectMulti(P, P.ts))
      j == 1 + Rnd(P.x, 905, Len(P.ts[i]))
      up == T(ExpectMulti(P, [P.ts EXCEPT ![i][j].r = P.ts[i][j].r ++ d]))
      even == T(ExpectMulti(P, [k \in 1..n |-> P.ts[1]]))
      Close(k) == k # i /\ FAbs(TeamMu(P.ts[i]) -- TeamMu(P.ts[k])) \prec (FI(4) ** TS_c(P.cfg, P.ts[i], P.ts[k]))
      open == P.sys = "wl" \/ \E k \in 1..n : Close(k)
      slack == IF P.sys = "ts" THEN FS("5e-7") ELSE FS("1e-9")
  IN  IfAllOk(<<base, up, even>>, LAMBDA o :
        \* (strictly only where a pairing that changes is not decided already)
        /\ n > 1 => IF open THEN Grows(o[1][i], o[2][i]) ELSE o[1][i] \preceq (o[2][i] ++ slack)
        /\ \A k \in 1..n : k # i => IF (o[1][i] ++ FS("1e-6")) \prec o[2][i] /\ (P.sys = "wl" \/ Close(k)) THEN Grows(o[2][k], o[1][k])
                                     ELSE o[2][k] \preceq (o[1][k] ++ slack)
        /\ \A k \in 1..n : NearP(P.sys, o[3][k], Recip(FI(n))))

\* ==== C03 All expected-score functions agree with each other =======================================
GameCfg(P, g) == LET c == IF P.sys \in PerGameCfg THEN g.cfg ELSE P.cfg IN IF P.sys \in Coloured /\ ~g.w THEN Mirror(P.sys, c) ELSE c
\* Listed finding: Glicko-Boost's period expectation ignores the colour of the game.
ColourBlind(P, g, x, y) ==
  /\ P.sys = "gboost" /\ ~g.w /\ "gboost-expp-colour" \in KnownFindings
  /\ Near(x, ExpectOf("gboost", P.cfg, P.a, g.q, TRUE))
C03_Period(P) ==
  LET n == Len(P.gs)
      all == T(ExpectP(P, P.a, P.gs))
      one == [i \in 1..n |-> T(Expect(P, GameCfg(P, P.gs[i]), P.a, P.gs[i].q))]
      steps == <<all>> \o one
      fine(i) == NearP(P.sys, all.r.out[i], one[i].r.out[1])
      blind(i) == ColourBlind(P, P.gs[i], all.r.out[i], one[i].r.out[1])
  IN  IF ~AllOk(steps) \/ Len(all.r.out) # n THEN Verdict(steps, FALSE)
      ELSE [ok |-> \A i \in 1..n : fine(i) \/ blind(i),
            known |-> IF \E i \in 1..n : ~fine(i) /\ blind(i) THEN "gboost-expp-colour" ELSE "",
            calls |-> steps]
C03_Pair(P) ==      \* team systems only
  LET s1 == T(Expect(P, P.cfg, P.a, P.b))
      s2 == T(ExpectTeams(P, <<P.a>>, <<P.b>>))
      s3 == T(ExpectMulti(P, <<<<P.a>>, <<P.b>>>>))
  IN  IfAllOk(<<s1, s2, s3>>, LAMBDA o : NearPSeq(P.sys, o[1], o[2]) /\ NearPSeq(P.sys, o[1], o[3]))
C03_Teams(P) ==
  LET s2 == T(ExpectTeams(P, P.ta, P.tb))
      s3 == T(ExpectMulti(P, <<P.ta, P.tb>>))
  IN  IfAllOk(<<s2, s3>>, LAMBDA o : NearPSeq(P.sys, o[1], o[2]))

\* ==== C04 The result of a game does not depend on who is listed first ================================
C04_Pair(P) ==
  LET s1 == T(Rate(P, P.a, P.b, P.o))
      s2 == T(RateC(P, Mirror(P.sys, P.cfg), P.b, P.a, Inv(P.o)))
      t == TolOf(P.sys, P.cfg)
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : NearRatingT(o[1][1], o[2][2], t) /\ NearRatingT(o[1][2], o[2][1], t))
C04_Teams(P) ==
  LET s1 == T(Teams(P, P.ta, P.tb, P.o))
      s2 == T(Teams(P, P.tb, P.ta, Inv(P.o)))
      t == TolOf(P.sys, P.cfg)
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : NearTeamT(o[1][1], o[2][2], t) /\ NearTeamT(o[1][2], o[2][1], t))

\* ==== C05 A better result never leads to a worse rating ================================================
NotWorse(sys, lo, hi) == LET x == Skill(sys, lo) y == Skill(sys, hi) IN x \preceq (y ++ (FS("1e-7") ** FMax(F1, FAbs(y))))
\* systems whose rating can stay where it is whatever the result
Floored(sys, cfg, p) == \/ sys = "egf" /\ p.r \preceq (Egf_Floor ++ F1)
                        \/ sys = "uscf" /\ p.r \preceq (Uscf_Floor ++ F1)
                        \/ sys = "fifa" /\ (cfg.ko \/ cfg.pen)
\* a win can cost and a loss can pay where the rating is also drawn towards the opponents
WinNeverCosts(P) == CASE P.sys = "ingo" -> FALSE [] P.sys = "uscf" -> P.a.n > 8 /\ P.b.n > 8
                      [] P.sys = "fifa" -> ~P.cfg.pen
                      [] P.sys = "sticko" -> FEq(P.cfg.lambda, F0) /\ F0 \preceq P.cfg.beta [] OTHER -> TRUE
LossNeverPays(P) == CASE P.sys \in {"ingo", "egf"} -> FALSE [] P.sys = "uscf" -> P.a.n > 8 /\ P.b.n > 8
                      [] P.sys = "fifa" -> ~P.cfg.pen
                      [] P.sys = "sticko" -> FEq(P.cfg.lambda, F0) /\ P.cfg.beta \preceq F0 [] OTHER -> TRUE
C05_Pair(P) ==
  LET w == T(Rate(P, P.a, P.b, "W"))
      d == T(Rate(P, P.a, P.b, "D"))
      l == T(Rate(P, P.a, P.b, "L"))
      sys == P.sys
  IN  IfAllOk(<<w, d, l>>, LAMBDA o :
        /\ NotWorse(sys, o[2][1], o[1][1]) /\ NotWorse(sys, o[3][1], o[2][1])
        /\ NotWorse(sys, o[1][2], o[2][2]) /\ NotWorse(sys, o[2][2], o[3][2])
        \* winning and losing are not the same
        /\ ~Floored(sys, P.cfg, o[3][1]) => Skill(sys, o[3][1]) \prec Skill(sys, o[1][1])
        /\ ~Floored(sys, P.cfg, o[1][2]) => Skill(sys, o[1][2]) \prec Skill(sys, o[3][2])
        /\ WinNeverCosts(P) => NotWorse(sys, P.a, o[1][1]) /\ NotWorse(sys, P.b, o[3][2])
        /\ LossNeverPays(P) => NotWorse(sys, o[3][1], P.a) /\ NotWorse(sys, o[1][2], P.b))
C05_Period(P) ==
  LET n == Len(P.gs)
      \* where a game also changes the player's uncertainty, later games of a sequentially rated
      \* period weigh differently: only the last result can be compared
      \* (and with k above 1600/ln 10 a stronger Elo player is overtaken by the correction of the next game)
      i == IF P.sys \in TeamSystems \/ (P.sys = "elo" /\ FI(690) \prec P.cfg.k) THEN n ELSE 1 + Rnd(P.x, 904, n)
      with(o) == T(Period(P, P.a, [P.gs EXCEPT ![i].o = o]))
      w == with("W") d == with("D") l == with("L")
      \* Glicko-Boost changes the deviation of players who did unexpectedly well
      boosted == P.sys = "gboost" /\ \E o \in Outcomes :
                   LET gs == [P.gs EXCEPT ![i].o = o]
                   IN  Boost_Boosted(P.cfg, P.a, gs) \/ Boost_Undecided(P.cfg, P.a, gs)
  IN  IF n = 0 \/ boosted THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<w, d, l>>, LAMBDA o :
             /\ NotWorse(P.sys, o[2], o[1]) /\ NotWorse(P.sys, o[3], o[2])
             \* (what the first of many Elo games changes, the later ones can undo but for the rounding)
             /\ (P.sys \notin {"egf", "uscf", "fifa"} /\ (P.sys = "elo" => i = n)) => Skill(P.sys, o[3]) \prec Skill(P.sys, o[1]))
C05_Teams(P) ==
  LET w == T(Teams(P, P.ta, P.tb, "W"))
      d == T(Teams(P, P.ta, P.tb, "D"))
      l == T(Teams(P, P.ta, P.tb, "L"))
  IN  IfAllOk(<<w, d, l>>, LAMBDA o :
        /\ \A j \in 1..Len(P.ta) : /\ NotWorse(P.sys, o[2][1][j], o[1][1][j]) /\ NotWorse(P.sys, o[3][1][j], o[2][1][j])
                                   /\ NotWorse(P.sys, P.ta[j], o[1][1][j]) /\ NotWorse(P.sys, o[3][1][j], P.ta[j])
                                   /\ o[3][1][j].r \prec o[1][1][j].r
        /\ \A j \in 1..Len(P.tb) : /\ NotWorse(P.sys, o[1][2][j], o[2][2][j]) /\ NotWorse(P.sys, o[2][2][j], o[3][2][j])
                                   /\ NotWorse(P.sys, o[1][2][j], P.tb[j]) /\ NotWorse(P.sys, P.tb[j], o[3][2][j])
                                   /\ o[1][2][j].r \prec o[3][2][j].r)

C05_Multi(P) ==     \* Weng-Lin: a team that finishes further up, everybody else as before
  LET n == Len(P.ts)
      i == 1 + Rnd(P.x, 904, n)
      dense == [k \in 1..n |-> 2 * DenseRank(P.ranks, k) + 1]
      other == 1 + (i % n)
      s1 == T(Multi(P, P.ts, [dense EXCEPT ![i] = 0], <<>>))                        \* alone in front
      s2 == T(Multi(P, P.ts, [dense EXCEPT ![i] = dense[other]], <<>>))             \* level with another team
      s3 == T(Multi(P, P.ts, [dense EXCEPT ![i] = dense[other] + 1], <<>>))         \* just behind it
      s4 == T(Multi(P, P.ts, [dense EXCEPT ![i] = 2 * n + 5], <<>>))                \* alone at the end
  IN  IF n < 2 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2, s3, s4>>, LAMBDA o :
             \A j \in 1..Len(P.ts[i]) :
               /\ \A m \in 1..3 : NotWorse(P.sys, o[m + 1][i][j], o[m][i][j])
               /\ o[4][i][j].r \prec o[1][i][j].r)

\* ==== C06 Points are neither created nor destroyed =======================================================
Prec(sys, cfg, p) == IF sys = "ts" THEN Recip(Sq(p.d) ++ Sq(cfg.tau)) ELSE Recip(Sq(p.d))
Gain(p, q) == q.r -- p.r
Cancel(x, y, scale) == FAbs(x ++ y) \preceq (FS("1e-9") ** FMax(F1, scale))
C06_Pair(P) ==
  LET s == T(Rate(P, P.a, P.b, P.o))
  IN  IfAllOk(<<s>>, LAMBDA o :
        LET g1 == Gain(P.a, o[1][1]) g2 == Gain(P.b, o[1][2]) sc == FMax(FAbs(P.a.r), FAbs(P.b.r))
        IN  CASE P.sys = "elo" -> Cancel(g1, g2, sc)
              [] P.sys = "fifa" -> (P.cfg.ko \/ P.cfg.pen) \/ Cancel(g1, g2, sc)
              [] P.sys = "ingo" -> Cancel(g1 ** (F1 ++ Ingo_Dev(P.a.a)), g2 ** (F1 ++ Ingo_Dev(P.b.a)), F30 ** sc)
              [] P.sys \in TeamSystems ->
                   LET p1 == Prec(P.sys, P.cfg, P.a) p2 == Prec(P.sys, P.cfg, P.b)
                   IN  Cancel(p1 ** g1, p2 ** g2, sc ** (p1 ++ p2)))
C06_Teams(P) ==
  LET s == T(Teams(P, P.ta, P.tb, P.o))
  IN  IfAllOk(<<s>>, LAMBDA o :
        LET u(old, new) == Prec(P.sys, P.cfg, old) ** Gain(old, new)
            t1 == [j \in 1..Len(P.ta) |-> u(P.ta[j], o[1][1][j])]
            t2 == [j \in 1..Len(P.tb) |-> u(P.tb[j], o[1][2][j])]
            sc == F100 ** FSum([j \in 1..(Len(P.ta) + Len(P.tb)) |-> Prec(P.sys, P.cfg, (P.ta \o P.tb)[j])])
        IN  \* everybody's share of the change is the same, relative to the own uncertainty
            /\ \A j \in 1..Len(t1) : Cancel(t1[j], FNeg(t1[1]), sc)
            /\ \A j \in 1..Len(t2) : Cancel(t2[j], FNeg(t2[1]), sc)
            /\ Cancel(t1[1], t2[1], sc))
C06_Multi(P) ==     \* Weng-Lin
  LET s == T(Multi(P, P.ts, P.ranks, <<>>))
  IN  IfAllOk(<<s>>, LAMBDA o :
        LET u(i, j) == Prec("wl", P.cfg, P.ts[i][j]) ** Gain(P.ts[i][j], o[1][i][j])
            us == [i \in 1..Len(P.ts) |-> u(i, 1)]
            sc == F100 ** FSum([i \in 1..Len(P.ts) |-> FSum([j \in 1..Len(P.ts[i]) |-> Prec("wl", P.cfg, P.ts[i][j])])])
        IN  /\ Cancel(FSum(us), F0, sc)
            /\ \A i \in 1..Len(P.ts) : \A j \in 1..Len(P.ts[i]) : Cancel(u(i, j), FNeg(us[i]), sc))

\* ==== C07 A sequential rating period is its games played one after the other =================================
RECURSIVE PlayOut(_, _, _)
PlayOut(P, steps, i) ==      \* the games one by one through the one-on-one function
  IF i > Len(P.gs) \/ (steps # <<>> /\ ~AllOk(steps)) THEN steps
  ELSE LET g == P.gs[i]
           cur == IF steps = <<>> THEN P.a ELSE steps[Len(steps)].r.out[1]
           s == T(RateC(P, IF P.sys \in PerGameCfg THEN g.cfg ELSE P.cfg, cur, g.q, g.o))
       IN  PlayOut(P, Append(steps, s), i + 1)
C07_Period(P) ==
  LET all == T(Period(P, P.a, P.gs))
      one == PlayOut(P, <<>>, 1)
  IN  IF ~AllOk(<<all>> \o one) THEN Verdict(<<all>> \o one, FALSE)
      ELSE Verdict(<<all>> \o one,
             NearRatingT(all.r.out, IF one = <<>> THEN P.a ELSE one[Len(one)].r.out[1], FS("1e-8")))

\* ==== C08 A batch rating period does not depend on the order of its games ======================================
C08_Period(P) ==
  LET n == Len(P.gs)
      k == 1 + Rnd(P.x, 905, n)
      i == 1 + Rnd(P.x, 906, n)
      j == 1 + Rnd(P.x, 907, n)
      s1 == T(Period(P, P.a, P.gs))
      s2 == T(Period(P, P.a, Reversed(P.gs)))
      s3 == T(Period(P, P.a, Rotated(P.gs, k)))
      s4 == T(Period(P, P.a, [P.gs EXCEPT ![i] = P.gs[j], ![j] = P.gs[i]]))
      t == TolOf(P.sys, P.cfg)
  IN  IF n < 2 \/ (P.sys = "gboost" /\ Boost_Undecided(P.cfg, P.a, P.gs)) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2, s3, s4>>, LAMBDA o :
             NearRatingT(o[1], o[2], t) /\ NearRatingT(o[1], o[3], t) /\ NearRatingT(o[1], o[4], t))

\* ==== C09 A period of one game is that game ======================================================================
C09_Pair(P) ==
  LET s1 == T(Rate(P, P.a, P.b, P.o))
      s2 == T(Period(P, P.a, <<Game(P.b, P.o, TRUE, P.cfg)>>))
      s3 == T(Period(P, P.b, <<Game(P.a, Inv(P.o), FALSE, Mirror(P.sys, P.cfg))>>))
      t == TolOf(P.sys, P.cfg)
  IN  IF P.sys = "gboost" /\ (Boost_Undecided(P.cfg, P.a, <<Game(P.b, P.o, TRUE, P.cfg)>>)
                              \/ Boost_Undecided(P.cfg, P.b, <<Game(P.a, Inv(P.o), FALSE, P.cfg)>>))
      THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2, s3>>, LAMBDA o : NearRatingT(o[1][1], o[2], t) /\ NearRatingT(o[1][2], o[3], t))

\* ==== C10 Not playing =================================================================================================
C10_Pair(P) ==
  LET idle == T(Period(P, P.a, <<>>))
      sys == P.sys
  IN  IF sys \notin GlickoLike
      THEN IfAllOk(<<idle>>, LAMBDA o :
             NearRating(o[1], IF sys = "dwz" THEN [P.a EXCEPT !.n = P.a.n + 1] ELSE P.a))
      ELSE LET dec == T(Decay(P, P.a))
               two == T(Decay(P, dec.r.out))
               wild == [P.a EXCEPT !.d = P.a.d ++ F350]        \* more uncertain than a newcomer
           IN  IF ~AllOk(<<idle, dec>>) THEN Verdict(<<idle, dec>>, FALSE)
               ELSE IfAllOk(<<idle, dec, two, T(Decay(P, wild)), T(Period(P, wild, <<>>))>>, LAMBDA o :
                      \* sitting out a period is the same as decaying
                      /\ NearRating(o[1], o[2])
                      /\ Near(o[2].r, P.a.r) /\ Near(o[3].r, P.a.r)
                      /\ sys = "glicko2" => Near(o[2].v, P.a.v)
                      \* certainty is only lost, and never more than a newcomer lacks
                      /\ FMin(P.a.d, F350) \preceq (o[2].d ++ FS("1e-9")) /\ o[2].d \preceq (o[3].d ++ FS("1e-9"))
                      /\ o[2].d \preceq F350 /\ o[3].d \preceq F350
                      /\ o[4].d \preceq F350 /\ Near(o[4].r, P.a.r) /\ NearRating(o[4], o[5])
                      \* the variance grows by the configured amount each period
                      /\ \A step \in {<<P.a, o[2]>>, <<o[2], o[3]>>, <<wild, o[4]>>} :
                           LET more == CASE sys = "glicko2" -> Sq(P.a.v ** Scale2)
                                         [] sys = "gboost" -> Boost_Variance(P.cfg, step[1].r, step[1].d)
                                         [] OTHER -> Sq(P.cfg.c)
                           IN  Near(step[2].d, FMin(FSqrt(Sq(step[1].d) ++ more), F350)))

\* ==== C11 Uncertainty stays within bounds, and playing does not add to it ================================================
UncertaintyOK(sys, cfg, old, new, n) ==
  /\ F0 \prec new.d
  /\ CASE sys = "glicko" -> new.d \preceq (Glicko_Pre(cfg.c, old.d) ++ FS("1e-9")) /\ new.d \preceq F350
       [] sys = "sticko" -> new.d \preceq F350 /\ new.d \preceq (FSqrt(Sq(Glicko_Pre(cfg.c, old.d)) ++ (cfg.h ** FI(n))) ++ FS("1e-9"))
       [] sys = "glicko2" -> F0 \prec new.v /\ new.d \preceq (FHypot(old.d, new.v ** Scale2) ++ FS("1e-9"))
       [] sys = "gboost" -> new.d \preceq F350
       [] sys = "wl" -> new.d \preceq (old.d ++ FS("1e-9")) /\ SuccEq(new.d ++ FS("1e-9"), old.d ** FSqrt(FPow(cfg.tol, FI(n))))
       [] sys = "ts" -> new.d \preceq (FSqrt(Sq(old.d) ++ (FI(n) ** Sq(cfg.tau))) ++ FS("1e-9"))
Capped == {"glicko", "sticko", "gboost"}
C11_Pair(P) ==
  LET s == T(Rate(P, P.a, P.b, P.o))
      \* whatever the deviation before
      w == T(Rate(P, [P.a EXCEPT !.d = P.a.d ++ F350], [P.b EXCEPT !.d = P.b.d ++ F350], P.o))
  IN  IfAllOk(<<s>> \o (IF P.sys \in Capped THEN <<w>> ELSE <<>>), LAMBDA o :
        /\ UncertaintyOK(P.sys, P.cfg, P.a, o[1][1], 1) /\ UncertaintyOK(P.sys, P.cfg, P.b, o[1][2], 1)
        /\ P.sys \in Capped => \A k \in {1, 2} : F0 \prec o[2][k].d /\ o[2][k].d \preceq F350)
C11_Period(P) ==
  LET n == Len(P.gs)
      s == T(Period(P, P.a, P.gs))
      fewer == T(Period(P, P.a, SubSeq(P.gs, 1, n - 1)))
  IN  IF n = 0 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s, fewer>>, LAMBDA o :
             /\ UncertaintyOK(P.sys, P.cfg, P.a, o[1], n)
             \* one more game tells more
             /\ P.sys \in {"glicko", "wl"} => o[1].d \preceq (o[2].d ++ FS("1e-9")))
C11_Teams(P) ==
  LET s == T(Teams(P, P.ta, P.tb, P.o))
  IN  IfAllOk(<<s>>, LAMBDA o :
        /\ \A j \in 1..Len(P.ta) : UncertaintyOK(P.sys, P.cfg, P.ta[j], o[1][1][j], 1)
        /\ \A j \in 1..Len(P.tb) : UncertaintyOK(P.sys, P.cfg, P.tb[j], o[1][2][j], 1))
C11_Multi(P) ==
  LET s == T(Multi(P, P.ts, P.ranks, P.wt))
  IN  IfAllOk(<<s>>, LAMBDA o : \A i \in 1..Len(P.ts) : \A j \in 1..Len(P.ts[i]) :
        \* with several opponents Weng-Lin's floor applies to the product over all pairs only
        UncertaintyOK(P.sys, IF P.sys = "wl" THEN [P.cfg EXCEPT !.tol = FMin(P.cfg.tol, F1)] ELSE P.cfg, P.ts[i][j], o[1][i][j], 1))

\* ==== C12 Only differences of ratings matter ==============================================================================
ShiftTol == FS("1e-8")
ShiftExpectOnly == {"dwz", "uscf", "gboost"}         \* their changes depend on the absolute rating
ShiftGames(gs, s) == MapSeq(LAMBDA g : [g EXCEPT !.q = Up(g.q, s)], gs)
C12_Pair(P) ==
  LET s == Shift(P.sys, P.x)
      r1 == T(Rate(P, P.a, P.b, P.o))
      r2 == T(Rate(P, Up(P.a, s), Up(P.b, s), P.o))
      e1 == T(Expect(P, P.cfg, P.a, P.b))
      e2 == T(Expect(P, P.cfg, Up(P.a, s), Up(P.b, s)))
      t == FMax(TolOf(P.sys, P.cfg), ShiftTol)
      same(x, y) == NearSeqT(x, y, IF P.sys = "ts" THEN FS("5e-7") ELSE ShiftTol)
  IN  IF P.sys \in ShiftExpectOnly THEN IfAllOk(<<e1, e2>>, LAMBDA o : same(o[1], o[2]))
      ELSE IfAllOk(<<r1, r2, e1, e2>>, LAMBDA o :
        /\ NearRatingT(Up(o[1][1], s), o[2][1], t) /\ NearRatingT(Up(o[1][2], s), o[2][2], t)
        /\ same(o[3], o[4]))
C12_Period(P) ==
  LET s == Shift(P.sys, P.x)
      r1 == T(Period(P, P.a, P.gs))
      r2 == T(Period(P, Up(P.a, s), ShiftGames(P.gs, s)))
      t == FMax(TolOf(P.sys, P.cfg), ShiftTol)
      e1 == T(ExpectP(P, P.a, P.gs))
      e2 == T(ExpectP(P, Up(P.a, s), ShiftGames(P.gs, s)))
      same(x, y) == NearSeqT(x, y, IF P.sys = "ts" THEN FS("5e-7") ELSE ShiftTol)
  IN  IF P.sys \in ShiftExpectOnly THEN IfAllOk(<<e1, e2>>, LAMBDA o : same(o[1], o[2]))
      ELSE IfAllOk(<<r1, r2, e1, e2>>, LAMBDA o :
        /\ NearRatingT(Up(o[1], s), o[2], t)
        /\ same(o[3], o[4]))
C12_Teams(P) ==     \* for teams of equal size
  LET s == Shift(P.sys, P.x)
      r1 == T(Teams(P, P.ta, P.tb, P.o))
      r2 == T(Teams(P, UpTeam(P.ta, s), UpTeam(P.tb, s), P.o))
      e1 == T(ExpectTeams(P, P.ta, P.tb))
      e2 == T(ExpectTeams(P, UpTeam(P.ta, s), UpTeam(P.tb, s)))
      t == FMax(TolOf(P.sys, P.cfg), FS("1e-6"))
  IN  IF Len(P.ta) # Len(P.tb) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<r1, r2, e1, e2>>, LAMBDA o :
             /\ NearTeamT(UpTeam(o[1][1], s), o[2][1], t) /\ NearTeamT(UpTeam(o[1][2], s), o[2][2], t)
             /\ NearSeqT(o[3], o[4], IF P.sys = "ts" THEN FS("5e-7") ELSE ShiftTol))
C12_Multi(P) ==     \* for teams of equal size
  LET s == Shift(P.sys, P.x)
      up == [i \in 1..Len(P.ts) |-> UpTeam(P.ts[i], s)]
      r1 == T(Multi(P, P.ts, P.ranks, <<>>))
      r2 == T(Multi(P, up, P.ranks, <<>>))
      e1 == T(ExpectMulti(P, P.ts))
      e2 == T(ExpectMulti(P, up))
      t == FS("1e-6")
  IN  IF \E i \in 1..Len(P.ts) : Len(P.ts[i]) # Len(P.ts[1]) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<r1, r2, e1, e2>>, LAMBDA o :
             /\ NearTeamsT([i \in 1..Len(P.ts) |-> UpTeam(o[1][i], s)], o[2], t)
             /\ NearSeqT(o[3], o[4], IF P.sys = "ts" THEN FS("5e-7") ELSE ShiftTol))

\* ==== C13 - C25 The laws of the systems =====================================================================================
ConformsAll(steps) == Verdict(steps, \A i \in 1..Len(steps) : Conforms(steps[i].c, steps[i].r))
\* TrueSkill beyond 12 standard deviations: the approximations of the tails may differ, the update may not
NearFar(cfg, old, x, y) ==
  /\ FAbs(x.r -- y.r) \preceq ((FS("0.005") ** FAbs(y.r -- old.r)) ++ (FS("1e-5") ** FMax(F1, FAbs(old.r))))
  /\ FAbs(Sq(x.d) -- Sq(y.d)) \preceq (FS("0.004") ** (Sq(old.d) ++ Sq(cfg.tau)))
Far_Teams(P, ta, tb) ==
  LET s == T(Teams(P, ta, tb, P.o))
      u == IF Len(ta) = 1 /\ Len(tb) = 1 THEN <<T(Rate(P, ta[1], tb[1], P.o))>> ELSE <<>>
      want == TS_Teams(P.cfg, ta, tb, P.o)
  IN  IfAllOk(<<s>> \o u, LAMBDA o :
        /\ \A j \in 1..Len(ta) : NearFar(P.cfg, ta[j], o[1][1][j], want[1][j])
        /\ \A j \in 1..Len(tb) : NearFar(P.cfg, tb[j], o[1][2][j], want[2][j])
        /\ u # <<>> => NearFar(P.cfg, ta[1], o[2][1], want[1][1]) /\ NearFar(P.cfg, tb[1], o[2][2], want[2][1]))
Law_Pair(P) ==
  IF P.sys = "ts" /\ ~TsFits(P.cfg, <<P.a>>, <<P.b>>) THEN Far_Teams(P, <<P.a>>, <<P.b>>) ELSE
  ConformsAll(<<T(Rate(P, P.a, P.b, P.o)), T(Expect(P, P.cfg, P.a, P.b))>>
              \o (IF P.sys \in GlickoLike THEN <<T(Decay(P, P.a)), T(Interval(P, P.a))>> ELSE <<>>)
              \o (IF P.sys = "ts" THEN <<T(RankOf(P.a)), T(Quality(P, P.a, P.b))>> ELSE <<>>))
Law_Period(P) ==
  LET far == P.sys = "ts" /\ \E j \in 1..Len(P.gs) : ~TsFits(P.cfg, <<P.a>>, <<P.gs[j].q>>)
  IN
  ConformsAll((IF far THEN <<>> ELSE <<T(Period(P, P.a, P.gs))>>) \o <<T(ExpectP(P, P.a, NoColour(P)))>>
              \o (IF P.sys = "ts" THEN <<T(QualityP(P, P.a, P.gs))>> ELSE <<>>))
Law_Teams(P) ==
  IF P.sys = "ts" /\ ~TsFits(P.cfg, P.ta, P.tb) THEN Far_Teams(P, P.ta, P.tb) ELSE
  ConformsAll(<<T(Teams(P, P.ta, P.tb, P.o)), T(ExpectTeams(P, P.ta, P.tb))>>
              \o (IF P.sys = "ts" THEN <<T(QualityTeams(P, P.ta, P.tb))>> ELSE <<>>))
\* No two teams (as weighted) of a TrueSkill game, nor the draw margin between them, are more than 8 standard deviations apart
\* (the margin does not know the weights)
Comparable(P) ==
  LET w == TS_Weights(P.ts, IF P.wt = <<>> THEN <<>> ELSE P.wt[1])
      mu == Force([t \in 1..Len(P.ts) |-> FSum([j \in 1..Len(P.ts[t]) |-> w[t][j] ** P.ts[t][j].r])])
      var == Force([t \in 1..Len(P.ts) |-> FSum([j \in 1..Len(P.ts[t]) |-> Sq(w[t][j]) ** (Sq(P.ts[t][j].d) ++ Sq(P.cfg.beta))])])
  IN  \A s, t \in 1..Len(P.ts) :
        (FAbs(mu[s] -- mu[t]) ++ TS_Margin(P.cfg, FI(Len(P.ts[s]) + Len(P.ts[t])))) \preceq (FI(8) ** FSqrt(var[s] ++ var[t]))
Law_Multi(P) ==
  ConformsAll((IF P.sys = "ts" /\ ~Comparable(P) THEN <<>> ELSE <<T(Multi(P, P.ts, P.ranks, P.wt))>>) \o <<T(ExpectMulti(P, P.ts))>>
              \o (IF P.sys = "ts" THEN <<T(QualityMulti(P, P.ts, P.wt))>> ELSE <<>>))
Law_First(P) == ConformsAll(<<T([op |-> "first", sys |-> "dwz", via |-> "fn", age |-> P.age, gs |-> P.gs])>>)

\* ==== C26 Sticko without its extensions is Glicko ===============================================================================
PlainSticko(c) == [h |-> F0, beta |-> F0, lambda |-> F0, gamma |-> F0, c |-> c]
C26_Pair(P) ==      \* P is a Glicko game
  LET S == [sys |-> "sticko", cfg |-> PlainSticko(P.cfg.c)]
      s == <<T(Rate(P, P.a, P.b, P.o)), T(Rate(S, P.a, P.b, P.o)),
             T(Expect(P, P.cfg, P.a, P.b)), T(Expect(S, S.cfg, P.a, P.b)),
             T(Decay(P, P.a)), T(Decay(S, P.a)), T(Interval(P, P.a)), T(Interval(S, P.a))>>
  IN  IfAllOk(s, LAMBDA o : NearTeam(o[1], o[2]) /\ NearSeq(o[3], o[4]) /\ NearRating(o[5], o[6]) /\ NearSeq(o[7], o[8]))
C26_Period(P) ==
  LET S == [sys |-> "sticko", cfg |-> PlainSticko(P.cfg.c)]
      s == <<T(Period(P, P.a, P.gs)), T(Period(S, P.a, P.gs)), T(ExpectP(P, P.a, P.gs)), T(ExpectP(S, P.a, P.gs))>>
  IN  IfAllOk(s, LAMBDA o : NearRating(o[1], o[2]) /\ NearSeq(o[3], o[4]))

\* ==== C27 Teams: same shape, same order, degenerate cases ==========================================================================
SameShape(ts, us) == Len(ts) = Len(us) /\ \A i \in 1..Len(ts) : Len(ts[i]) = Len(us[i])
C27_Teams(P) ==
  LET t == FMax(TolOf(P.sys, P.cfg), FS("1e-7"))
      s1 == T(Teams(P, P.ta, P.tb, P.o))
      s2 == T(Teams(P, Reversed(P.ta), Reversed(P.tb), P.o))
      s3 == T(Teams(P, P.ta, <<>>, P.o))
      s4 == T(Teams(P, <<>>, P.tb, P.o))
      s5 == T(Teams(P, <<P.ta[1]>>, <<P.tb[1]>>, P.o))
      s6 == T(Rate(P, P.ta[1], P.tb[1], P.o))
      steps == <<s1, s2, s3, s4>> \o (IF (P.sys # "ts" \/ TsFits(P.cfg, <<P.ta[1]>>, <<P.tb[1]>>)) THEN <<s5, s6>> ELSE <<>>)
  IN  IfAllOk(steps, LAMBDA o :
        /\ SameShape(<<P.ta, P.tb>>, o[1])
        /\ NearTeamT(Reversed(o[1][1]), o[2][1], t) /\ NearTeamT(Reversed(o[1][2]), o[2][2], t)
        /\ NearTeams(o[3], <<P.ta, <<>>>>) /\ NearTeams(o[4], <<<<>>, P.tb>>)
        /\ \A i \in 1..Len(P.ta), j \in 1..Len(P.ta) : P.ta[i] = P.ta[j] => NearRatingT(o[1][1][i], o[1][1][j], t)
        /\ \A i \in 1..Len(P.tb), j \in 1..Len(P.tb) : P.tb[i] = P.tb[j] => NearRatingT(o[1][2][i], o[1][2][j], t)
        /\ Len(o) > 4 => /\ NearRatingT(o[5][1][1], o[6][1], t)
                         /\ NearRatingT(o[5][2][1], o[6][2], t))
C27_Multi(P) ==
  LET n == Len(P.ts)
      i == 1 + Rnd(P.x, 908, n)
      j == 1 + Rnd(P.x, 909, Len(P.ts[i]))
      t == FMax(MultiTol(P.sys), FS("1e-7"))
      swapped == [P.ts EXCEPT ![i] = Reversed(P.ts[i])]
      wswapped == IF P.wt = <<>> THEN <<>> ELSE <<[P.wt[1] EXCEPT ![i] = Reversed(P.wt[1][i])]>>
      s1 == T(Multi(P, P.ts, P.ranks, P.wt))
      s2 == T(Multi(P, swapped, P.ranks, wswapped))
      s3 == T(Multi(P, [P.ts EXCEPT ![i] = <<>>], P.ranks, <<>>))
      s4 == T(Multi(P, <<>>, <<>>, <<>>))
      s5 == T(Multi(P, <<P.ts[1]>>, <<1>>, <<>>))
  IN  IfAllOk(<<s1, s2, s3, s4, s5>>, LAMBDA o :
        /\ SameShape(P.ts, o[1])
        /\ NearTeamsT([o[1] EXCEPT ![i] = Reversed(o[1][i])], o[2], t)
        /\ NearTeams(o[3], [P.ts EXCEPT ![i] = <<>>])
        /\ P.wt = <<>> => \A k, l \in 1..Len(P.ts[i]) : P.ts[i][k] = P.ts[i][l] => NearRatingT(o[1][i][k], o[1][i][l], t)
        /\ o[4] = <<>>
        /\ NearTeams(o[5], <<P.ts[1]>>))
C27_Two(P) ==       \* Weng-Lin: two teams are a special case of several
  LET s1 == T(Teams(P, P.ta, P.tb, P.o))
      s2 == T(Multi(P, <<P.ta, P.tb>>, WL_RanksOf(P.o), <<>>))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : NearTeams(o[1], o[2]))

\* ==== C28 Ranks ==========================================================================================================================
C28_Multi(P) ==
  LET n == Len(P.ts)
      t == FMax(MultiTol(P.sys), FS("1e-7"))
      dense == [i \in 1..n |-> DenseRank(P.ranks, i)]
      spread == [i \in 1..n |-> 10 + 3 * DenseRank(P.ranks, i) * DenseRank(P.ranks, i)]
      distinct == \A i, k \in 1..n : i # k => P.ranks[i] # P.ranks[k]
      k == Rnd(P.x, 910, n)
      w(f(_)) == IF P.wt = <<>> THEN <<>> ELSE <<f(P.wt[1])>>
      s1 == T(Multi(P, P.ts, P.ranks, P.wt))
      s2 == T(Multi(P, P.ts, dense, P.wt))
      s3 == T(Multi(P, P.ts, spread, P.wt))
      \* reordering the list: TrueSkill chains tied teams in list order, so only without ties
      free == P.sys = "wl" \/ distinct
      s4 == T(Multi(P, Reversed(P.ts), Reversed(P.ranks), w(Reversed)))
      s5 == T(Multi(P, Rotated(P.ts, k), Rotated(P.ranks, k), w(LAMBDA x : Rotated(x, k))))
      best == {i \in 1..n : \A q \in 1..n : q # i => P.ranks[i] < P.ranks[q]}
      worst == {i \in 1..n : \A q \in 1..n : q # i => P.ranks[q] < P.ranks[i]}
  IN  IfAllOk(<<s1, s2, s3>> \o (IF free THEN <<s4, s5>> ELSE <<>>), LAMBDA o :
        /\ NearTeamsT(o[1], o[2], t) /\ NearTeamsT(o[1], o[3], t)
        /\ free => NearTeamsT(Reversed(o[1]), o[4], t) /\ NearTeamsT(Rotated(o[1], k), o[5], t)
        \* the winner does not lose points and the last does not gain any
        /\ n > 1 => \A i \in best : \A j \in 1..Len(P.ts[i]) : NotWorse(P.sys, P.ts[i][j], o[1][i][j])
        /\ n > 1 => \A i \in worst : \A j \in 1..Len(P.ts[i]) : NotWorse(P.sys, o[1][i][j], P.ts[i][j]))

\* ==== C29 Match quality ======================================================================================================================
C29_Pair(P) ==
  LET s1 == T(Quality(P, P.a, P.b))
      s2 == T(Quality(P, P.b, P.a))
      s3 == T(QualityTeams(P, <<P.a>>, <<P.b>>))
      s4 == T(QualityMulti(P, <<<<P.a>>, <<P.b>>>>, <<>>))
      s5 == T(QualityP(P, P.a, <<Game(P.b, "W", TRUE, P.cfg), Game(P.a, "W", TRUE, P.cfg)>>))
      \* the same players, further apart
      away == IF P.a.r \preceq P.b.r THEN Up(P.b, Step("ts", P.x)) ELSE Up(P.b, FNeg(Step("ts", P.x)))
      s6 == T(Quality(P, P.a, away))
      sh == Shift("ts", P.x)
      s7 == T(Quality(P, Up(P.a, sh), Up(P.b, sh)))
      s8 == T(Quality(P, P.a, P.a))
  IN  IfAllOk(<<s1, s2, s3, s4, s5, s6, s7, s8>>, LAMBDA o :
        /\ InUnit(o[1])
        /\ Near(o[1], o[2]) /\ Near(o[1], o[3]) /\ Near(o[1], o[4])
        /\ Len(o[5]) = 2 /\ Near(o[1], o[5][1]) /\ Near(o[8], o[5][2])
        /\ Grows(o[6], o[1])
        /\ NearT(o[1], o[7], FS("1e-8")))
C29_Teams(P) ==
  LET s1 == T(QualityTeams(P, P.ta, P.tb))
      s2 == T(QualityTeams(P, P.tb, P.ta))
      s3 == T(QualityMulti(P, <<P.ta, P.tb>>, <<>>))
      s4 == T(QualityTeams(P, Reversed(P.ta), Reversed(P.tb)))
      \* the same teams, further apart
      by == IF TeamMu(P.ta) \preceq TeamMu(P.tb) THEN Step("ts", P.x) ELSE FNeg(Step("ts", P.x))
      j == 1 + Rnd(P.x, 909, Len(P.tb))
      s5 == T(QualityTeams(P, P.ta, [P.tb EXCEPT ![j] = Up(@, by)]))
      sh == Shift("ts", P.x)
      level == Len(P.ta) = Len(P.tb)
      s6 == T(QualityTeams(P, UpTeam(P.ta, sh), UpTeam(P.tb, sh)))
  IN  IfAllOk(<<s1, s2, s3, s4, s5>> \o (IF level THEN <<s6>> ELSE <<>>), LAMBDA o :
        /\ InUnit(o[1]) /\ Near(o[1], o[2]) /\ Near(o[1], o[3]) /\ Near(o[1], o[4])
        /\ Grows(o[5], o[1])
        /\ level => NearT(o[1], o[6], FS("1e-8")))
C29_Multi(P) ==
  LET s1 == T(QualityMulti(P, P.ts, P.wt))
      s2 == T(QualityMulti(P, Reversed(P.ts), IF P.wt = <<>> THEN <<>> ELSE <<Reversed(P.wt[1])>>))
      s3 == T(QualityMulti(P, [P.ts EXCEPT ![1 + Rnd(P.x, 909, Len(P.ts))] = <<>>], <<>>))
      s4 == T(QualityMulti(P, <<>>, <<>>))
      s5 == T(QualityMulti(P, <<P.ts[1]>>, <<>>))
      i == 1 + Rnd(P.x, 908, Len(P.ts))
      s6 == T(QualityMulti(P, [P.ts EXCEPT ![i] = Reversed(P.ts[i])], IF P.wt = <<>> THEN <<>> ELSE <<[P.wt[1] EXCEPT ![i] = Reversed(P.wt[1][i])]>>))
      sh == Shift("ts", P.x)
      level == P.wt = <<>> /\ \A k \in 1..Len(P.ts) : Len(P.ts[k]) = Len(P.ts[1])
      s7 == T(QualityMulti(P, [k \in 1..Len(P.ts) |-> UpTeam(P.ts[k], sh)], <<>>))
  IN  IfAllOk(<<s1, s2, s3, s4, s5, s6>> \o (IF level THEN <<s7>> ELSE <<>>), LAMBDA o :
        /\ NearT(o[1], o[6], FS("1e-8")) /\ level => NearT(o[1], o[7], FS("1e-8"))
        /\ F0 \preceq o[1] /\ o[1] \preceq (F1 ++ FS("1e-9")) /\ NearT(o[1], o[2], FS("1e-8"))
        /\ FEq(o[3], F0) /\ FEq(o[4], F0) /\ FEq(o[5], F0))

\* ==== C30 Weights ==============================================================================================================================
Ones(ts) == [i \in 1..Len(ts) |-> [j \in 1..Len(ts[i]) |-> F1]]
BadWeights(P) ==
  LET ok == IF P.wt = <<>> THEN Ones(P.ts) ELSE P.wt[1]
      n == Len(P.ts)
      i == 1 + Rnd(P.x, 911, n)
      j == 1 + Rnd(P.x, 912, Len(P.ts[i]))
      i2 == 1 + Rnd(P.x, 914, n)
      m == Rnd(P.x, 913, 7)
      neg == Pick(P.x, 915, FSeq(<<"-1", "-0.5", "-0.0001", "-0.00000001", "-1e-300", "-100">>))
  IN  CASE m = 0 -> Append(ok, <<F1>>)
        [] m = 1 -> SubSeq(ok, 1, n - 1)
        [] m = 2 -> [ok EXCEPT ![i] = Append(ok[i], F1)]
        [] m = 3 -> [ok EXCEPT ![i] = SubSeq(ok[i], 1, Len(ok[i]) - 1)]
        [] m = 4 -> [ok EXCEPT ![i][j] = neg]
        [] m = 5 -> [[ok EXCEPT ![i2] = Append(ok[i2], F1)] EXCEPT ![i][j] = neg]
        [] OTHER -> <<>>
C30_Multi(P) ==
  LET bad == BadWeights(P)
      s1 == T(Multi(P, P.ts, P.ranks, <<bad>>))
      s2 == T(QualityMulti(P, P.ts, <<bad>>))
      s3 == T(Multi(P, P.ts, P.ranks, <<>>))
      s4 == T(Multi(P, P.ts, P.ranks, <<Ones(P.ts)>>))
      s5 == T(QualityMulti(P, P.ts, <<>>))
      s6 == T(QualityMulti(P, P.ts, <<Ones(P.ts)>>))
      s7 == T(Multi(P, P.ts, P.ranks, P.wt))
      s8 == T(QualityMulti(P, P.ts, P.wt))
      want == TS_WeightError(P.ts, bad)
      steps == <<s1, s2, s3, s4, s5, s6, s7, s8>>
  IN  Verdict(steps,
        /\ s1.r = Err(want) /\ s2.r = Err(want)
        /\ \A i \in 3..8 : steps[i].r.st = "ok"
        /\ NearTeams(s3.r.out, s4.r.out) /\ Near(s5.r.out, s6.r.out)
        /\ \A i \in 1..Len(P.ts) : \A j \in 1..Len(P.ts[i]) : FiniteRating(s7.r.out[i][j])
        \* a player counts in proportion to the weight
        /\ Conforms(s8.c, s8.r)
        /\ (P.wt # <<>> /\ Chance(P.x, 961, 3) /\ Comparable(P)) => Conforms(s7.c, s7.r))

\* ==== C31 The traits do what the functions do =======================================================================================================
C31_Pair(P) ==
  LET c1 == Rate(P, P.a, P.b, P.o)
      c2 == Expect(P, P.cfg, P.a, P.b)
  IN  IfAllOk(<<T(c1), T(ViaTrait(c1)), T(c2), T(ViaTrait(c2))>>, LAMBDA o : NearTeam(o[1], o[2]) /\ NearSeq(o[3], o[4]))
C31_Period(P) ==    \* the trait uses its configuration, and the first move, for all games
  LET gs == MapSeq(LAMBDA g : [g EXCEPT !.cfg = P.cfg, !.w = TRUE], P.gs)
      c1 == Period(P, P.a, gs)
      c2 == ExpectP(P, P.a, gs)
      fits == P.sys = "egf" => \A i \in 1..Len(gs) : EgfRoom(P.cfg.h, P.a, gs[i].q)
  IN  IF ~fits THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<T(c1), T(ViaTrait(c1)), T(c2), T(ViaTrait(c2))>>, LAMBDA o : NearRating(o[1], o[2]) /\ NearSeq(o[3], o[4]))
C31_Teams(P) ==
  LET c1 == Teams(P, P.ta, P.tb, P.o)
      c2 == ExpectTeams(P, P.ta, P.tb)
  IN  IfAllOk(<<T(c1), T(ViaTrait(c1)), T(c2), T(ViaTrait(c2))>>, LAMBDA o : NearTeams(o[1], o[2]) /\ NearSeq(o[3], o[4]))
C31_Multi(P) ==
  LET c1 == Multi(P, P.ts, P.ranks, <<>>)
      c2 == ExpectMulti(P, P.ts)
  IN  IfAllOk(<<T(c1), T(ViaTrait(c1)), T(c2), T(ViaTrait(c2))>>, LAMBDA o : NearTeams(o[1], o[2]) /\ NearSeq(o[3], o[4]))

\* ==== C32 Constructors and conversions =====================================================================================================================
ConvSeq == SetToSeq(Conversions)
Back(from, to) == <<to, from>> \in Conversions
\* Far from the usual: ratings, deviations and counters of any size
Wide(sys, x, k, p) ==
  LET q == [p EXCEPT !.r = p.r ** Pick(x, k + 1, FSeq(<<"1", "1", "-1", "3", "-7.5", "100", "0.01">>))]
      d == IF "d" \in DOMAIN p THEN [q EXCEPT !.d = p.d ** Pick(x, k + 2, FSeq(<<"1", "3", "7.5", "40", "0.01">>))] ELSE q
      v == IF "v" \in DOMAIN p THEN [d EXCEPT !.v = p.v ** Pick(x, k + 3, FSeq(<<"1", "3", "40", "0.01">>))] ELSE d
      n == IF "n" \in DOMAIN p THEN [v EXCEPT !.n = p.n * Pick(x, k + 4, <<1, 1, 3, 60>>)] ELSE v
  IN  IF ~Chance(x, k, 3) THEN p ELSE n
C32_Pair(Q) ==
  LET P == [Q EXCEPT !.a = Wide(Q.sys, Q.x, 910, Q.a)]
      sys == P.sys
      mine == SelectSeq(ConvSeq, LAMBDA c : c[1] = sys)
      conv == [i \in 1..Len(mine) |-> T([op |-> "conv", from |-> mine[i][1], to |-> mine[i][2], a |-> P.a])]
      back == [i \in 1..Len(mine) |-> T([op |-> "conv", from |-> mine[i][2], to |-> mine[i][1], a |-> conv[i].r.out])]
      opt(k, x) == IF Chance(P.x, k, 3) THEN <<>> ELSE <<x>>
      dev == IF "d" \in DOMAIN P.a THEN P.a.d ELSE F100
      ctor == T([op |-> "ctor", sys |-> sys, via |-> "trait", r |-> opt(920, P.a.r), d |-> opt(921, dev)])
      ctorN == T([op |-> "ctor", sys |-> sys, via |-> "trait", r |-> <<>>, d |-> <<>>])
      def == T([op |-> "default", sys |-> sys, via |-> "trait"])
      view == T([op |-> "view", sys |-> sys, via |-> "trait", a |-> P.a])
      new == T([op |-> "new", sys |-> sys, via |-> "fn", age |-> Whole(sys, P.x, 930, 0, 90, <<0, 1, 2, 3, 25, 26, 27>>)])
      from == CASE sys \in {"elo", "fifa", "egf"} -> <<T([op |-> "from1", sys |-> sys, via |-> "fn", r |-> P.a.r])>>
                [] sys = "ingo" -> <<T([op |-> "from1", sys |-> sys, via |-> "fn", r |-> P.a.r]),
                                     T([op |-> "from2", sys |-> sys, via |-> "fn", r |-> P.a.r, n |-> P.a.a])>>
                [] sys = "dwz" -> <<T([op |-> "from2", sys |-> sys, via |-> "fn", r |-> P.a.r, n |-> P.a.n]),
                                    T([op |-> "from3", sys |-> sys, via |-> "fn", r |-> P.a.r, n |-> P.a.n, k |-> P.a.a])>>
                [] sys = "uscf" -> <<T([op |-> "from2", sys |-> sys, via |-> "fn", r |-> P.a.r, n |-> P.a.n])>>
                [] sys = "glicko2" -> <<T([op |-> "from3", sys |-> sys, via |-> "fn", r |-> P.a.r, d |-> P.a.d, v |-> P.a.v])>>
                [] OTHER -> <<T([op |-> "from2", sys |-> sys, via |-> "fn", r |-> P.a.r, d |-> P.a.d])>>
      cfg == IF sys \in {"dwz", "ingo"} THEN <<>> ELSE <<T([op |-> "defcfg", sys |-> sys, via |-> "fn"])>>
      pts == T([op |-> "points", o |-> P.o])
      mto == T([op |-> "mto", x |-> Rnd(P.x, 941, 2000000000), y |-> Rnd(P.x, 942, 300)])
      mto2 == T([op |-> "mto", x |-> Rnd(P.x, 941, 3), y |-> Rnd(P.x, 942, 3)])
      first == <<ctor, ctorN, def, view, new, pts, mto, mto2>> \o from \o cfg \o conv
  IN  IF ~AllOk(first) THEN Verdict(first, FALSE)
      ELSE Verdict(first \o back,
             /\ \A i \in 1..Len(first) : Conforms(first[i].c, first[i].r)
             /\ AllOk(back)
             \* there and back again keeps the rating (and the deviation)
             /\ \A i \in 1..Len(back) :
                  /\ Near(back[i].r.out.r, P.a.r)
                  /\ "d" \in DOMAIN P.a => Near(back[i].r.out.d, P.a.d))

\* ==== C33 Serialisation round trip ================================================================================================================================
\* numbers of every size and sign
OddFloats == FSeq(<<"0", "-0.0", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-300", "1e300",
                    "0.1", "0.30000000000000004", "123456789.123456789", "9007199254740993", "-1e-9", "3.4028236e38", "16777217", "1e22", "1e21">>)
OddWholes == <<0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777217, 2147483647>>
Odd(x, k, p) ==     \* the same shape, any numbers
  LET n == SetToSeq(DOMAIN p)
      at(f) == CHOOSE m \in 1..Len(n) : n[m] = f
  IN  [f \in DOMAIN p |-> CASE f \in {"ko", "pen"} -> p[f]
                            [] f \in {"n", "a"} -> Pick(x, k + at(f), OddWholes)
                            [] OTHER -> Pick(x, k + at(f), OddFloats)]
OddConfig(sys, x, c) == Odd(x, 960, c)
C33_Pair(P) ==
  LET sys == P.sys
      kept(a) == T([op |-> "serde", sys |-> sys, via |-> "trait", a |-> a])
      keptcfg(c) == T([op |-> "serdecfg", sys |-> sys, via |-> "fn", cfg |-> c])
      s3 == T([op |-> "serdeoutcome", o |-> P.o])
      s4 == T([op |-> "serdemto", x |-> Rnd(P.x, 940, 2000000000)])
      s5 == T([op |-> "serdemto", x |-> Pick(P.x, 944, OddWholes)])
      \* counters beyond 32 bits: hi * 2^31 + lo
      s6 == T([op |-> "serdebig", sys |-> sys, via |-> "trait", hi |-> Rnd(P.x, 945, 2000000000), lo |-> Rnd(P.x, 946, 2000000000)])
      steps == <<kept(P.a), kept(Odd(P.x, 950, P.a)), s3, s4, s5>>
               \o (IF sys \in {"dwz", "ingo"} THEN <<>> ELSE <<keptcfg(P.cfg), keptcfg(OddConfig(sys, P.x, P.cfg))>>)
               \o (IF sys \in {"dwz", "ingo", "uscf"} THEN <<s6>> ELSE <<>>)
  IN  Verdict(steps, \A i \in 1..Len(steps) : steps[i].r = Law(steps[i].c))

\* ==== C34 Every call returns, and returns numbers ======================================================================================================================
FiniteOut(c, out) ==
  CASE c.op \in {"exp", "expp", "expteams", "expmulti", "qualityp", "ci"} -> \A i \in 1..Len(out) : FFinite(out[i])
    [] c.op \in {"rank", "quality", "qualityteams", "qualitymulti"} -> FFinite(out)
    [] c.op = "rate" -> FiniteRating(out[1]) /\ FiniteRating(out[2])
    [] c.op \in {"teams", "multi"} -> \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) : FiniteRating(out[i][j])
    [] OTHER -> FiniteRating(out)
Total(steps) == Verdict(steps, \A i \in 1..Len(steps) : steps[i].r.st = "ok" /\ FiniteOut(steps[i].c, steps[i].r.out))
\* Listed finding: a dynamics factor of more than sqrt(2) times beta can make TrueSkill's variance
\* negative and the uncertainty NaN
DynamicsNaN(c, out) ==
  /\ "ts-dynamics-nan" \in KnownFindings
  /\ (F2 ** Sq(c.cfg.beta)) \prec Sq(c.cfg.tau)
  /\ \A k \in 1..2 : FFinite(out[k].r) /\ (FFinite(out[k].d) \/ FIsNaN(out[k].d))
C34_Dynamic(P) ==
  LET beta == FMin(P.cfg.beta, F5)
      s == T(Rate([P EXCEPT !.cfg = [P.cfg EXCEPT !.beta = beta, !.tau = beta ** Pick(P.x, 905, <<F1, F2, F3>>)]], P.a, P.b, P.o))
      fine == s.r.st = "ok" /\ FiniteOut(s.c, s.r.out)
      known == s.r.st = "ok" /\ ~fine /\ DynamicsNaN(s.c, s.r.out)
  IN  [ok |-> fine \/ known \/ Binding = "model", known |-> IF known THEN "ts-dynamics-nan" ELSE "", calls |-> <<s>>]
\* Extreme but valid numbers: ratings far from the usual, tiny and huge uncertainties and volatilities,
\* draw probabilities of (almost) 0 and (almost) 1
WildRating(sys, x, k, p) ==
  LET f == Pick(x, k, FSeq(<<"1", "1", "1", "-3", "40", "1000", "0">>))
      d == Pick(x, k + 1, FSeq(<<"1", "1", "1", "0.1", "0.001", "40">>))
      r == IF sys = "egf" THEN p.r ELSE IF sys = "uscf" THEN FMax(F100, p.r ** f) ELSE p.r ** f
      q == [p EXCEPT !.r = r]
  IN  IF "d" \in DOMAIN p THEN [q EXCEPT !.d = IF sys \in GlickoLike THEN Clamp(p.d ** d, FS("0.01"), F350) ELSE p.d ** d] ELSE q
WildCfg(sys, x, c) ==
  IF sys # "ts" THEN c ELSE [c EXCEPT !.dp = Pick(x, 985, <<c.dp, F0, FS("1e-9"), FS("0.001"), FS("0.999"), FS("0.999999")>>)]
WildSeq(sys, x, k, t) == [j \in 1..Len(t) |-> WildRating(sys, x, k + 10 * j, t[j])]
IsWild(P) == Chance(P.x, 980, 3)
C34_Pair(Q) ==
  LET P == IF ~IsWild(Q) THEN Q ELSE [Q EXCEPT !.a = WildRating(Q.sys, Q.x, 990, Q.a), !.b = WildRating(Q.sys, Q.x, 995, Q.b), !.cfg = WildCfg(Q.sys, Q.x, Q.cfg)] IN
  IF P.sys = "ts" /\ Chance(P.x, 904, 8) /\ TsFits([P.cfg EXCEPT !.beta = F1], <<P.a>>, <<P.b>>) THEN C34_Dynamic(P) ELSE
  Total(<<T(Rate(P, P.a, P.b, P.o)), T(Expect(P, P.cfg, P.a, P.b)), T(Period(P, P.a, <<>>))>>
        \o (IF P.sys \in GlickoLike THEN <<T(Decay(P, P.a)), T(Interval(P, P.a))>> ELSE <<>>)
        \o (IF P.sys = "ts" THEN <<T(RankOf(P.a)), T(Quality(P, P.a, P.b))>> ELSE <<>>))
C34_Period(Q) ==
  LET P == IF ~IsWild(Q) THEN Q ELSE [Q EXCEPT !.a = WildRating(Q.sys, Q.x, 990, Q.a), !.cfg = WildCfg(Q.sys, Q.x, Q.cfg),
                                               !.gs = [j \in 1..Len(Q.gs) |-> [Q.gs[j] EXCEPT !.q = WildRating(Q.sys, Q.x, 1000 + 10 * j, Q.gs[j].q)]]] IN
  Total(<<T(Period(P, P.a, P.gs)), T(ExpectP(P, P.a, P.gs))>>
        \o (IF P.sys = "ts" THEN <<T(QualityP(P, P.a, P.gs))>> ELSE <<>>))
\* Once in a while a crowd
Crowd(t, n) == [j \in 1..n |-> t[1 + ((j - 1) % Len(t))]]
CrowdSize(P) == IF Chance(P.x, 986, 250) THEN 20 + Rnd(P.x, 987, 280) ELSE 0
C34_Teams(Q) ==
  LET n == CrowdSize(Q)
      P == IF n > 0 THEN [Q EXCEPT !.ta = Crowd(@, n), !.tb = Crowd(@, n)]
           ELSE IF ~IsWild(Q) THEN Q ELSE [Q EXCEPT !.ta = WildSeq(Q.sys, Q.x, 1000, Q.ta), !.tb = WildSeq(Q.sys, Q.x, 2000, Q.tb), !.cfg = WildCfg(Q.sys, Q.x, Q.cfg)] IN
  Total(<<T(Teams(P, P.ta, P.tb, P.o)), T(ExpectTeams(P, P.ta, P.tb))>>
        \o (IF P.sys = "ts" THEN <<T(QualityTeams(P, P.ta, P.tb))>> ELSE <<>>))
C34_Multi(Q) ==
  LET n == CrowdSize(Q)
      m == IF Q.sys = "ts" THEN 15 + (n % 40) ELSE n       \* ... or a crowd of teams
      P == IF n > 0 /\ Chance(Q.x, 988, 2) THEN [Q EXCEPT !.ts = [t \in 1..m |-> <<Q.ts[1 + (t % Len(Q.ts))][1]>>], !.ranks = [t \in 1..m |-> Q.ranks[1 + (t % Len(Q.ts))]], !.wt = <<>>]
           ELSE IF n > 0 THEN [Q EXCEPT !.ts = [t \in 1..Len(Q.ts) |-> Crowd(Q.ts[t], n)], !.wt = <<>>]
           ELSE IF ~IsWild(Q) THEN Q ELSE [Q EXCEPT !.ts = [t \in 1..Len(Q.ts) |-> WildSeq(Q.sys, Q.x, 1000 * t, Q.ts[t])], !.cfg = WildCfg(Q.sys, Q.x, Q.cfg)] IN
  Total(<<T(Multi(P, P.ts, P.ranks, P.wt)), T(ExpectMulti(P, P.ts))>>
        \o (IF P.sys = "ts" THEN <<T(QualityMulti(P, P.ts, P.wt))>> ELSE <<>>))
C34_First(P) ==
  LET s == T([op |-> "first", sys |-> "dwz", via |-> "fn", age |-> P.age, gs |-> P.gs])
  IN  Verdict(<<s>>, IF Dwz_FirstError(P.gs) # "none" THEN s.r.st = "err" ELSE s.r.st = "ok" /\ FiniteRating(s.r.out))

\* ==== C36 The same call gives the same result ===========================================================================================================================
\* c, a similar call d, and c again; d has to give what it gives in a process that never saw c
Twice(P, c, d) ==
  LET s1 == T(c) s2 == T(d) s3 == T(c)
  IN  IF s1.r # s3.r THEN Verdict(<<s1, s2, s3>>, FALSE)
      ELSE IF Chance(P.x, 970, 4) THEN LET s4 == Anew(d) IN Verdict(<<s1, s2, s3, s4>>, s2.r = s4.r)
      ELSE IF Chance(P.x, 970, 5) THEN LET s4 == Anew(c) IN Verdict(<<s1, s2, s3, s4>>, s1.r = s4.r)
      ELSE IF Chance(P.x, 969, 4)
      THEN LET s4 == Together(<<c, d, c, d>>, 40)
           IN  Verdict(<<s1, s2, s3, s4>>, s4.r.st = "ok" /\ s4.r.out = <<s1.r, s2.r, s1.r, s2.r>>)
      ELSE Verdict(<<s1, s2, s3>>, TRUE)
\* A rating that is almost p
Nudged(P, p, k) ==
  LET m == Rnd(P.x, k, 6)
      by == Pick(P.x, k + 1, FSeq(<<"0.3", "-0.3", "0.001", "1", "1e-9", "-25">>))
  IN  IF m = 0 /\ "d" \in DOMAIN p THEN [p EXCEPT !.d = p.d ** FS("0.99")]
      ELSE IF m = 1 /\ "n" \in DOMAIN p THEN [p EXCEPT !.n = p.n + 1]
      ELSE IF m = 2 /\ "a" \in DOMAIN p THEN [p EXCEPT !.a = p.a + 1]
      ELSE IF m = 3 /\ "v" \in DOMAIN p THEN [p EXCEPT !.v = p.v ** FS("0.9")]
      ELSE [p EXCEPT !.r = p.r ++ by]
CloseCfg(P) ==      \* almost the same configuration
  LET by == Pick(P.x, 982, FSeq(<<"1.0000000001", "1.0000000001", "0.9999999", "1.001">>))
  IN  IF P.sys \in {"egf", "dwz", "ingo"} THEN P.cfg
      ELSE [f \in DOMAIN P.cfg |-> IF f \in {"ko", "pen"} THEN P.cfg[f] ELSE P.cfg[f] ** by]
OtherCfg(P) == IF P.sys = "egf" \/ Chance(P.x, 983, 2) THEN CloseCfg(P) ELSE Config(P.sys, P.x, 971)
C36_Pair(P) ==
  LET m == Rnd(P.x, 972, 6)
      na == Nudged(P, P.a, 973) nb == Nudged(P, P.b, 976)
      d == CASE m = 0 -> Rate(P, P.b, P.a, P.o)
             [] m = 1 -> Rate(P, na, P.b, P.o)
             [] m = 2 -> Rate(P, P.a, nb, P.o)
             [] m = 3 -> Rate(P, P.a, P.b, OutcomeAt(P.x, 979))
             [] m = 4 -> RateC(P, OtherCfg(P), P.a, P.b, P.o)
             [] OTHER -> Rate(P, na, nb, P.o)
      e == CASE m = 1 -> Expect(P, P.cfg, na, P.b) [] m = 2 -> Expect(P, P.cfg, P.a, nb) [] m = 4 -> Expect(P, OtherCfg(P), P.a, P.b)
             [] OTHER -> Expect(P, P.cfg, P.b, P.a)
      w == IF P.sys = "ts" /\ ~TsFits(IF m = 4 THEN OtherCfg(P) ELSE P.cfg, <<P.a>>, <<P.b>>) THEN TRUE ELSE FALSE
  IN  IF w THEN Verdict(<<>>, TRUE)
      ELSE IF Chance(P.x, 980, 4) THEN Twice(P, Expect(P, P.cfg, P.a, P.b), e) ELSE Twice(P, Rate(P, P.a, P.b, P.o), d)
C36_Period(P) ==
  LET n == Len(P.gs)
      m == Rnd(P.x, 972, 6)
      i == 1 + Rnd(P.x, 981, n)
      d == CASE n = 0 \/ m = 0 -> Period(P, Nudged(P, P.a, 973), P.gs)
             [] m = 1 -> Period(P, P.a, [P.gs EXCEPT ![i].q = Nudged(P, @, 976)])
             [] m = 2 -> Period(P, P.a, [P.gs EXCEPT ![i].o = OutcomeAt(P.x, 979)])
             [] m = 3 -> Period(P, P.a, SubSeq(P.gs, 1, n - 1))
             [] m = 4 -> Period([P EXCEPT !.cfg = CloseCfg(P)], P.a, P.gs)
             [] OTHER -> ExpectP(P, P.a, P.gs)
  IN  Twice(P, Period(P, P.a, P.gs), d)
C36_Teams(P) ==
  LET m == Rnd(P.x, 972, 5)
      d == CASE m = 0 -> Teams(P, P.tb, P.ta, P.o)
             [] m = 1 -> Teams(P, [P.ta EXCEPT ![1] = Nudged(P, @, 973)], P.tb, P.o)
             [] m = 2 -> Teams(P, P.ta, P.tb, OutcomeAt(P.x, 979))
             [] m = 3 -> Teams([P EXCEPT !.cfg = CloseCfg(P)], P.ta, P.tb, P.o)
             [] OTHER -> ExpectTeams(P, P.ta, P.tb)
  IN  Twice(P, Teams(P, P.ta, P.tb, P.o), d)
C36_Multi(P) ==
  LET m == Rnd(P.x, 972, 5)
      d == CASE m = 0 -> Multi(P, P.ts, Reversed(P.ranks), P.wt)
             [] m = 1 -> Multi(P, [P.ts EXCEPT ![1][1] = Nudged(P, @, 973)], P.ranks, P.wt)
             [] m = 2 -> Multi(P, P.ts, P.ranks, <<>>)
             [] m = 3 -> Multi([P EXCEPT !.cfg = CloseCfg(P)], P.ts, P.ranks, P.wt)
             [] OTHER -> ExpectMulti(P, P.ts)
  IN  Twice(P, Multi(P, P.ts, P.ranks, P.wt), d)

\* ==== C37 Intervals and ranks ==================================================================================================================================================
C37_Pair(Q) ==
  LET P == [Q EXCEPT !.a = Wide(Q.sys, Q.x, 910, Q.a)] IN
  IF P.sys = "ts"
  THEN LET s1 == T(RankOf(P.a)) s2 == T(RankOf(Up(P.a, F1))) s3 == T(RankOf([P.a EXCEPT !.d = P.a.d ++ F1]))
       IN  IfAllOk(<<s1, s2, s3>>, LAMBDA o :
             /\ o[1] \preceq P.a.r /\ Near(o[1], P.a.r -- (F3 ** P.a.d))
             /\ o[1] \prec o[2] /\ o[3] \prec o[1])
  ELSE LET s1 == T(Interval(P, P.a)) s2 == T(Interval(P, [P.a EXCEPT !.d = P.a.d // F2]))
       IN  IfAllOk(<<s1, s2>>, LAMBDA o :
             /\ Near(o[1][1] ++ o[1][2], F2 ** P.a.r)                         \* centred
             /\ Near(o[1][2] -- o[1][1], F2 ** (CI196 ** P.a.d))              \* 1.96 deviations each way
             /\ o[1][1] \preceq P.a.r /\ P.a.r \preceq o[1][2]
             /\ o[1][1] \prec o[2][1] /\ o[2][2] \prec o[1][2])               \* certainty narrows it

\* ==== C38 Beating a stronger opponent is worth more ===================================================================================================================================
C38_Pair(P) ==
  LET d == Step(P.sys, P.x)
      me == MySide(P, 905)
      s1 == PlayedBy(P, P.a, P.b, P.o, 905)
      s2 == PlayedBy(P, P.a, Better(P.sys, P.b, d), P.o, 905)
      boosted == P.sys = "gboost" /\ Succ(Boost_z(P.a, <<Game(Better(P.sys, P.b, d), P.o, TRUE, P.cfg)>>, P.cfg.eta) ++ FS("1e-9"), P.cfg.k)
  IN  IF (P.sys = "ts" /\ ~TsFits(P.cfg, <<P.a>>, <<Up(P.b, d)>>)) \/ boosted
         \/ (P.sys = "sticko" /\ ~FEq(P.cfg.beta, F0))      \* every game pays a bonus that depends on the deviation
      THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : NotWorse(P.sys, o[1][me], o[2][me]))
C38_Period(P) ==    \* one of the opponents is stronger (see C05_Period)
  LET d == Step(P.sys, P.x)
      n == Len(P.gs)
      i == IF P.sys \in TeamSystems \/ (P.sys = "elo" /\ FI(690) \prec P.cfg.k) THEN n ELSE 1 + Rnd(P.x, 904, n)
      q == Better(P.sys, P.gs[i].q, d)
      s1 == T(Period(P, P.a, P.gs))
      s2 == T(Period(P, P.a, [P.gs EXCEPT ![i].q = q]))
  IN  IF n = 0 \/ (P.sys = "ts" /\ ~TsFits(P.cfg, <<P.a>>, <<q>>)) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : NotWorse(P.sys, o[1], o[2]))
C38_Multi(P) ==     \* Weng-Lin: a member of another team is stronger
  LET d == Step(P.sys, P.x)
      n == Len(P.ts)
      i == 1 + Rnd(P.x, 904, n)
      j == 1 + Rnd(P.x, 905, Len(P.ts[i]))
      s1 == T(Multi(P, P.ts, P.ranks, <<>>))
      s2 == T(Multi(P, [P.ts EXCEPT ![i][j].r = P.ts[i][j].r ++ d], P.ranks, <<>>))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : \A k \in 1..n : k # i => \A m \in 1..Len(P.ts[k]) : NotWorse(P.sys, o[1][k][m], o[2][k][m]))

C38_Teams(P) ==     \* one of the opponents is stronger
  LET d == Step(P.sys, P.x)
      j == 1 + Rnd(P.x, 904, Len(P.tb))
      tb == [P.tb EXCEPT ![j].r = P.tb[j].r ++ d]
      me == MySide(P, 905)
      s1 == TeamSide(P, P.ta, P.tb, P.o, 905)
      s2 == TeamSide(P, P.ta, tb, P.o, 905)
  IN  IF P.sys = "ts" /\ ~TsFits(P.cfg, P.ta, tb) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : \A k \in 1..Len(P.ta) : NotWorse(P.sys, o[1][me][k], o[2][me][k]))

\* ==== C39 The less certain a rating, the more a result moves it ===========================================================================================================================
MovesMore(p, few, more) == FAbs(Gain(p, few)) \preceq (FAbs(Gain(p, more)) ++ FS("1e-7"))
C39_Pair(P) ==
  LET cap == IF P.sys \in GlickoLike THEN F350 ELSE FI(1000000)
      lo == FMin(cap, FMin(P.a.d, P.b.d)) hi == FMin(cap, FMax(P.a.d, P.b.d))
      me == MySide(P, 905)
      s1 == PlayedBy(P, [P.a EXCEPT !.d = lo], P.b, P.o, 905)
      s2 == PlayedBy(P, [P.a EXCEPT !.d = hi], P.b, P.o, 905)
      plain == P.sys = "sticko" => FEq(P.cfg.lambda, F0) /\ FEq(P.cfg.beta, F0)
      boosted == P.sys = "gboost" /\ Succ(Boost_z(P.a, <<Game(P.b, P.o, TRUE, P.cfg)>>, P.cfg.eta) ++ FS("1e-9"), P.cfg.k)
  IN  IF ~plain \/ boosted THEN Verdict(<<>>, TRUE) ELSE IfAllOk(<<s1, s2>>, LAMBDA o : MovesMore(P.a, o[1][me], o[2][me]))
C39_Period(P) ==    \* (in Glicko-2 the new volatility depends on the deviation, too)
  LET f == Pick(P.x, 906, FSeq(<<"1.01", "1.5", "2", "4">>))
      more == IF P.sys \in GlickoLike THEN FMax(P.a.d, FMin(P.a.d ** f, F350)) ELSE P.a.d ** f
      s1 == T(Period(P, P.a, P.gs))
      s2 == T(Period(P, [P.a EXCEPT !.d = more], P.gs))
      plain == P.sys = "sticko" => FEq(P.cfg.lambda, F0) /\ FEq(P.cfg.beta, F0)
      boosted == P.sys = "gboost" /\ (Boost_Boosted(P.cfg, P.a, P.gs) \/ Boost_Undecided(P.cfg, P.a, P.gs))
  IN  IF P.gs = <<>> \/ ~plain \/ boosted THEN Verdict(<<>>, TRUE) ELSE IfAllOk(<<s1, s2>>, LAMBDA o : MovesMore(P.a, o[1], o[2]))
C39_Teams(P) ==
  LET f == Pick(P.x, 906, FSeq(<<"1.01", "1.5", "2", "4">>))
      j == 1 + Rnd(P.x, 904, Len(P.ta))
      me == MySide(P, 905)
      ta == [P.ta EXCEPT ![j].d = P.ta[j].d ** f]
      s1 == TeamSide(P, P.ta, P.tb, P.o, 905)
      s2 == TeamSide(P, ta, P.tb, P.o, 905)
  IN  IfAllOk(<<s1, s2>>, LAMBDA o :
        /\ MovesMore(P.ta[j], o[1][me][j], o[2][me][j])
        \* and of two members the less certain one
        /\ \A k, l \in 1..Len(ta) : ta[k].d \prec ta[l].d => FAbs(Gain(ta[k], o[2][me][k])) \preceq (FAbs(Gain(ta[l], o[2][me][l])) ++ FS("1e-7")))

\* ==== C40 The unit of ratings does not matter ==================================================================
\* Ratings, uncertainties, beta and tau in another unit: the same results in that unit
Unit(P) == Pick(P.x, 910, FSeq(<<"0.04", "0.5", "3", "60", "2000">>))
InUnits(p, f) == [p EXCEPT !.r = p.r ** f, !.d = p.d ** f]
TeamIn(t, f) == MapSeq(LAMBDA p : InUnits(p, f), t)
CfgIn(P, f) == [P EXCEPT !.cfg = IF P.sys = "ts" THEN [P.cfg EXCEPT !.beta = P.cfg.beta ** f, !.tau = P.cfg.tau ** f] ELSE [P.cfg EXCEPT !.beta = P.cfg.beta ** f]]
\* (TrueSkill: rounding can turn a difference of zero into a tiny one, where its erfc jumps by 3e-8)
UnitTol(P) == IF P.sys = "ts" THEN FS("1e-6") ELSE FS("1e-8")
C40_Pair(P) ==
  LET f == Unit(P)
      u == CfgIn(P, f)
      r1 == T(Rate(P, P.a, P.b, P.o)) r2 == T(Rate(u, InUnits(P.a, f), InUnits(P.b, f), P.o))
      e1 == T(Expect(P, P.cfg, P.a, P.b)) e2 == T(Expect(u, u.cfg, InUnits(P.a, f), InUnits(P.b, f)))
  IN  IfAllOk(<<r1, r2, e1, e2>>, LAMBDA o :
        NearTeamT(TeamIn(o[1], f), o[2], UnitTol(P)) /\ NearSeqT(o[3], o[4], UnitTol(P)))
C40_K(P) ==         \* Elo and FIFA: gains are proportional to k and to the importance of the game
  LET f == Pick(P.x, 910, FSeq(<<"0.1", "0.5", "2", "3.5">>))
      cfg == IF P.sys = "elo" THEN [P.cfg EXCEPT !.k = P.cfg.k ** f] ELSE [P.cfg EXCEPT !.imp = P.cfg.imp ** f]
      r1 == T(Rate(P, P.a, P.b, P.o)) r2 == T(RateC(P, cfg, P.a, P.b, P.o))
  IN  IfAllOk(<<r1, r2>>, LAMBDA o : \A i \in 1..2 :
        LET p == IF i = 1 THEN P.a ELSE P.b IN FNear(Gain(p, o[1][i]) ** f, Gain(p, o[2][i]), FS("1e-7")))
C40_Period(P) ==
  LET f == Unit(P)
      u == CfgIn(P, f)
      r1 == T(Period(P, P.a, P.gs)) r2 == T(Period(u, InUnits(P.a, f), MapSeq(LAMBDA g : [g EXCEPT !.q = InUnits(g.q, f)], P.gs)))
  IN  IfAllOk(<<r1, r2>>, LAMBDA o : NearRatingT(InUnits(o[1], f), o[2], FS("1e-6")))
C40_Teams(P) ==
  LET f == Unit(P)
      u == CfgIn(P, f)
      ta == TeamIn(P.ta, f) tb == TeamIn(P.tb, f)
      steps == <<T(Teams(P, P.ta, P.tb, P.o)), T(Teams(u, ta, tb, P.o)), T(ExpectTeams(P, P.ta, P.tb)), T(ExpectTeams(u, ta, tb))>>
               \o (IF P.sys = "ts" THEN <<T(QualityTeams(P, P.ta, P.tb)), T(QualityTeams(u, ta, tb))>> ELSE <<>>)
  IN  IfAllOk(steps, LAMBDA o :
        /\ NearTeamT(TeamIn(o[1][1], f), o[2][1], UnitTol(P)) /\ NearTeamT(TeamIn(o[1][2], f), o[2][2], UnitTol(P))
        /\ NearSeqT(o[3], o[4], UnitTol(P))
        /\ Len(o) = 4 \/ FNear(o[5], o[6], UnitTol(P)))
C40_Multi(P) ==     \* (TrueSkill's schedule stops at an absolute change: only its expectations and qualities)
  LET f == Unit(P)
      u == CfgIn(P, f)
      ts == [t \in 1..Len(P.ts) |-> TeamIn(P.ts[t], f)]
      steps == <<T(ExpectMulti(P, P.ts)), T(ExpectMulti(u, ts))>>
               \o (IF P.sys = "ts" THEN <<T(QualityMulti(P, P.ts, P.wt)), T(QualityMulti(u, ts, P.wt))>>
                   ELSE <<T(Multi(P, P.ts, P.ranks, P.wt)), T(Multi(u, ts, P.ranks, P.wt))>>)
  IN  IfAllOk(steps, LAMBDA o :
        /\ NearSeqT(o[1], o[2], UnitTol(P))
        /\ IF P.sys = "ts" THEN FNear(o[3], o[4], UnitTol(P)) ELSE NearTeamsT([t \in 1..Len(P.ts) |-> TeamIn(o[3][t], f)], o[4], UnitTol(P)))

\* ==== C41 In a period rated at once only the total score against each opponent counts =============================
C41_Period(P) ==
  LET n == Len(P.gs)
      i == 1 + Rnd(P.x, 904, n)
      g == P.gs[i]
      k == Pick(P.x, 905, <<n, 0, n \div 2>>)        \* where the second game against the opponent goes
      with(o1, o2) == LET one == [P.gs EXCEPT ![i].o = o1]
                      IN  SubSeq(one, 1, k) \o <<[g EXCEPT !.o = o2]>> \o SubSeq(one, k + 1, n)
      all == << with("W", "L"), with("D", "D"), with("L", "W") >>
      close == P.sys = "gboost" /\ \E m \in 1..3 : Boost_Undecided(P.cfg, P.a, all[m])
      low == P.sys = "egf" /\ P.a.r \prec FI(-700)        \* the floor applies to every single game
      t == FMax(TolOf(P.sys, P.cfg), FS("1e-7"))
  IN  IF n = 0 \/ close \/ low THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk([m \in 1..3 |-> T(Period(P, P.a, all[m]))], LAMBDA o :
             NearRatingT(o[1], o[2], t) /\ NearRatingT(o[2], o[3], t))

\* ==== C42 A draw pulls ratings together and leaves equals where they are ===========================================
DrawTol(p) == FS("1e-9") ** FMax(F1, FAbs(p.r))
Stays(sys, p, q) == FAbs(q.r -- p.r) \preceq (IF sys = "ts" THEN FS("1e-6") ELSE DrawTol(p))
C42_Cfg(P) == LET c == Neutral(P.sys, P.cfg) IN [P EXCEPT !.cfg = IF P.sys = "sticko" THEN [c EXCEPT !.beta = F0] ELSE c]
C42_Pair(Q) ==
  LET P == C42_Cfg(Q)
      equal == [P.b EXCEPT !.r = P.a.r]
      s1 == T(Rate(P, P.a, P.b, "D"))
      s2 == T(Rate(P, P.a, equal, "D"))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o :
        LET a == P.a b == P.b
            hi == IF a.r \prec b.r THEN 2 ELSE 1           \* the side with the higher number
            p == <<a, b>>
        IN  /\ o[1][hi].r \preceq (p[hi].r ++ DrawTol(p[hi]))
            /\ (p[3 - hi].r -- DrawTol(p[3 - hi])) \preceq o[1][3 - hi].r
            /\ Stays(P.sys, a, o[2][1]) /\ Stays(P.sys, equal, o[2][2]))
C42_Teams(P) ==
  LET s1 == T(Teams(P, P.ta, P.tb, "D"))
      s2 == T(Teams(P, P.ta, Reversed(P.ta), "D"))
      up == TeamMu(P.tb) \prec TeamMu(P.ta)
  IN  IfAllOk(<<s1, s2>>, LAMBDA o :
        /\ \A j \in 1..Len(P.ta) : LET p == P.ta[j] q == o[1][1][j] IN IF up THEN q.r \preceq (p.r ++ DrawTol(p)) ELSE (p.r -- DrawTol(p)) \preceq q.r
        /\ \A j \in 1..Len(P.tb) : LET p == P.tb[j] q == o[1][2][j] IN IF up THEN (p.r -- DrawTol(p)) \preceq q.r ELSE q.r \preceq (p.r ++ DrawTol(p))
        /\ \A j \in 1..Len(P.ta) : Stays(P.sys, P.ta[j], o[2][1][j]) /\ Stays(P.sys, P.ta[Len(P.ta) + 1 - j], o[2][2][j]))
C42_Multi(P) ==     \* the same team several times, all of them on the same rank
  LET n == Len(P.ts)
      ts == [t \in 1..n |-> P.ts[1]]
      s == T(Multi(P, ts, [t \in 1..n |-> P.ranks[1]], <<>>))
  IN  IfAllOk(<<s>>, LAMBDA o : \A t \in 1..n : \A j \in 1..Len(ts[t]) : Stays(P.sys, ts[t][j], o[1][t][j]))

\* ==== C43 Uncertainty evens the odds ===========================================================================
\* x is not further from one half than y
Closer(sys, x, y) == FAbs(x -- Half) \preceq (FAbs(y -- Half) ++ (IF sys = "ts" THEN FS("5e-7") ELSE FS("1e-9")))
Blurred(P, p, k) == LET d == p.d ** Pick(P.x, k, FSeq(<<"1.01", "1.5", "3", "10">>)) IN [p EXCEPT !.d = IF P.sys \in GlickoLike THEN FMin(FMax(p.d, F350), d) ELSE d]
WiderBeta(P) == [P EXCEPT !.cfg = [P.cfg EXCEPT !.beta = P.cfg.beta ** FS("1.5")]]
C43_Pair(P) ==
  LET base == T(Expect(P, P.cfg, P.a, P.b))
      one == T(Expect(P, P.cfg, Blurred(P, P.a, 905), P.b))
      two == T(Expect(P, P.cfg, P.a, Blurred(P, P.b, 906)))
      both == T(Expect(P, P.cfg, Blurred(P, P.a, 905), Blurred(P, P.b, 906)))
      wide == T(Expect(P, WiderBeta(P).cfg, P.a, P.b))
      steps == <<base, one, two, both>> \o (IF P.sys \in TeamSystems THEN <<wide>> ELSE <<>>)
  IN  IfAllOk(steps, LAMBDA o :
        /\ \A k \in 2..Len(o), i \in 1..2 : Closer(P.sys, o[k][i], o[1][i])
        /\ \A k \in 2..3, i \in 1..2 : Closer(P.sys, o[4][i], o[k][i]))
C43_Period(P) ==
  LET n == Len(P.gs)
      j == 1 + Rnd(P.x, 904, n)
      base == T(ExpectP(P, P.a, P.gs))
      one == T(ExpectP(P, Blurred(P, P.a, 905), P.gs))
      two == T(ExpectP(P, P.a, [P.gs EXCEPT ![j].q = Blurred(P, P.gs[j].q, 906)]))
  IN  IF n = 0 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<base, one, two>>, LAMBDA o : \A k \in 1..n : Closer(P.sys, o[2][k], o[1][k]) /\ Closer(P.sys, o[3][k], o[1][k]))
C43_Teams(P) ==
  LET i == 1 + Rnd(P.x, 903, Len(P.ta))
      j == 1 + Rnd(P.x, 904, Len(P.tb))
      base == T(ExpectTeams(P, P.ta, P.tb))
      one == T(ExpectTeams(P, [P.ta EXCEPT ![i] = Blurred(P, @, 905)], P.tb))
      two == T(ExpectTeams(P, P.ta, [P.tb EXCEPT ![j] = Blurred(P, @, 906)]))
      wide == T(ExpectTeams(WiderBeta(P), P.ta, P.tb))
  IN  IfAllOk(<<base, one, two, wide>>, LAMBDA o : \A k \in 2..4, m \in 1..2 : Closer(P.sys, o[k][m], o[1][m]))
C43_Multi(P) ==     \* the strongest team expects less, the weakest more
  LET n == Len(P.ts)
      i == 1 + Rnd(P.x, 903, n)
      j == 1 + Rnd(P.x, 904, Len(P.ts[i]))
      mu == Force([k \in 1..n |-> TeamMu(P.ts[k])])
      base == T(ExpectMulti(P, P.ts))
      more == T(ExpectMulti(P, [P.ts EXCEPT ![i][j] = Blurred(P, @, 905)]))
      wide == T(ExpectMulti(WiderBeta(P), P.ts))
      e == IF P.sys = "ts" THEN FS("5e-7") ELSE FS("1e-9")
  IN  IfAllOk(<<base, more, wide>>, LAMBDA o : \A k \in 1..n, m \in 2..3 :
        /\ (\A l \in 1..n : mu[l] \preceq mu[k]) => o[m][k] \preceq (o[1][k] ++ e)
        /\ (\A l \in 1..n : mu[k] \preceq mu[l]) => o[1][k] \preceq (o[m][k] ++ e))

\* ==== C44 Experience and age damp the changes ==================================================================
\* A player with more games, tournaments or years (where the same formula applies)
Seasoned(P) ==
  LET by == Pick(P.x, 905, <<1, 2, 5, 40>>)
      old == LET a == IF P.sys = "dwz" /\ P.a.a < 20 THEN 20 ELSE P.a.a IN <<[P.a EXCEPT !.a = a], [P.a EXCEPT !.a = a + by]>>
  IN  CASE P.sys = "uscf" -> IF P.a.n > 8 THEN <<P.a, [P.a EXCEPT !.n = P.a.n + by]>>
                             ELSE <<P.a, [P.a EXCEPT !.n = IF P.a.n + by > 8 THEN 8 ELSE P.a.n + by]>>
        [] P.sys = "dwz" -> IF Chance(P.x, 906, 2) THEN old ELSE <<P.a, [P.a EXCEPT !.n = P.a.n + by]>>
        [] P.sys = "ingo" -> old
Damped(p, q, young, seasoned) == FAbs(Gain(q, seasoned)) \preceq (FAbs(Gain(p, young)) ++ FS("1e-7"))
C44_Pair(P) ==
  LET y == Seasoned(P)
      me == MySide(P, 907)
      s1 == PlayedBy(P, y[1], P.b, P.o, 907)
      s2 == PlayedBy(P, y[2], P.b, P.o, 907)
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : Damped(y[1], y[2], o[1][me], o[2][me]))
C44_Period(P) ==
  LET y == Seasoned(P)
      s1 == T(Period(P, y[1], P.gs))
      s2 == T(Period(P, y[2], P.gs))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : Damped(y[1], y[2], o[1], o[2]))

\* ==== C45 A result is measured against the expected score ======================================================
\* The changes of rating after a win, a draw and a loss (ingo: the better, the smaller)
Changes(sys, p, o, me) == [i \in 1..Len(o) |-> Skill(sys, o[i][me]) -- Skill(sys, p)]
ExTol(sys, g) == (IF sys = "ts" THEN FS("2e-6") ELSE FS("1e-9")) ** FMax(F1, FMax(FAbs(g[1]), FAbs(g[Len(g)])))
\* the change is proportional to the points less e, b being paid in any case
BreakEven(g, e, b, tol) ==
  /\ FAbs(((e ** g[1]) ++ ((F1 -- e) ** g[3])) -- b) \preceq tol
  /\ FAbs(g[2] -- ((g[1] ++ g[3]) // F2)) \preceq tol
OnFloor(sys, p) == \/ sys = "uscf" /\ p.r \preceq FS("100.001")
                   \/ sys = "egf" /\ p.r \preceq FS("-899.999")
Settled(P) ==       \* players whose changes follow one formula whatever the outcome
  CASE P.sys = "dwz" -> [P EXCEPT !.a.r = FMax(@, FI(1300)), !.a.a = IF @ < 20 THEN 20 ELSE @]
    [] P.sys = "uscf" -> [P EXCEPT !.a.n = IF @ < 9 THEN 9 + @ ELSE @, !.cfg.t = FS("1e7")]
    [] P.sys = "fifa" -> [P EXCEPT !.cfg.ko = FALSE, !.cfg.pen = FALSE]
    [] P.sys = "sticko" -> [P EXCEPT !.cfg.beta = F0, !.cfg.lambda = F0]
    [] P.sys = "gboost" -> [P EXCEPT !.cfg.k = F0]
    [] P.sys = "ts" -> [P EXCEPT !.cfg.dp = F0]
    [] OTHER -> P
C45_Pair(Q) ==
  LET P == Settled(Q)
      me == MySide(P, 905)
      W == PlayedBy(P, P.a, P.b, "W", 905) L == PlayedBy(P, P.a, P.b, "L", 905)
      D == IF P.sys = "ts" THEN L ELSE PlayedBy(P, P.a, P.b, "D", 905)
      e == IF me = 1 THEN T(Expect(P, P.cfg, P.a, P.b)) ELSE T(Expect(P, Mirror(P.sys, P.cfg), P.b, P.a))
      plain == T(RateC(P, [h |-> F0], P.a, P.a, "D"))       \* EGF's bonus
      steps == <<W, D, L, e>> \o (IF P.sys = "egf" THEN <<plain>> ELSE <<>>)
  IN  IfAllOk(steps, LAMBDA o :
        LET g == Changes(P.sys, P.a, SubSeq(o, 1, 3), me)
            tol == ExTol(P.sys, g) ** FMax(F1, FAbs(P.a.r) // F100)
        IN  CASE \E i \in 1..3 : OnFloor(P.sys, o[i][me]) -> TRUE
              [] P.sys = "ts" -> FAbs((o[4][me] ** g[1]) ++ ((F1 -- o[4][me]) ** g[3])) \preceq tol
              [] P.sys \in {"glicko", "sticko", "gboost"} -> FAbs(g[2] -- ((g[1] ++ g[3]) // F2)) \preceq tol
              [] OTHER -> BreakEven(g, o[4][me], IF P.sys = "egf" THEN Gain(P.a, o[5][1]) ELSE F0, tol))
C45_One(Q) ==       \* one game of a period (of the sequential ones the last): a draw is half a win
  LET P == LET S == Settled(Q) IN IF S.sys = "fifa" THEN [S EXCEPT !.gs = [j \in 1..Len(S.gs) |-> [S.gs[j] EXCEPT !.cfg.ko = FALSE, !.cfg.pen = FALSE]]] ELSE S
      n == Len(P.gs)
      i == IF P.sys \in Sequential THEN n ELSE 1 + Rnd(P.x, 904, n)
      with(r) == T(Period(P, P.a, [P.gs EXCEPT ![i].o = r]))
  IN  IF n = 0 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<with("W"), with("D"), with("L")>>, LAMBDA o :
             \/ \E k \in 1..3 : OnFloor(P.sys, o[k]) \/ (P.sys = "egf" /\ P.a.r \prec FI(-600))
             \/ FAbs((o[1].r ++ o[3].r) -- (F2 ** o[2].r)) \preceq (FS("1e-8") ** FMax(F1, FMax(FAbs(o[1].r), FAbs(o[3].r)))))
C45_Period(Q) ==    \* all games won, as played, all lost
  LET P == Settled(Q)
      n == Len(P.gs)
      with(r) == [j \in 1..n |-> [P.gs[j] EXCEPT !.o = r]]
      W == T(Period(P, P.a, with("W"))) D == T(Period(P, P.a, P.gs)) L == T(Period(P, P.a, with("L")))
      e == T(ExpectP(P, P.a, P.gs))
  IN  IF n = 0 THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<W, D, L, e>>, LAMBDA o :
        LET g == [i \in 1..3 |-> Skill(P.sys, o[i]) -- Skill(P.sys, P.a)]
            sum == FSum(o[4])
            pts == FSum([j \in 1..n |-> Points(P.gs[j].o)])
            tol == ExTol(P.sys, g) ** FI(n) ** FMax(F1, FAbs(P.a.r) // F100)
        IN  \/ \E i \in 1..3 : OnFloor(P.sys, o[i])
            \/ /\ FAbs((sum ** g[1]) ++ ((FI(n) -- sum) ** g[3])) \preceq tol
               /\ FAbs((FI(n) ** g[2]) -- ((pts ** g[1]) ++ ((FI(n) -- pts) ** g[3]))) \preceq tol)
C45_Teams(Q) ==
  LET P == Settled(Q)
      me == MySide(P, 905)
      W == TeamSide(P, P.ta, P.tb, "W", 905) L == TeamSide(P, P.ta, P.tb, "L", 905)
      D == IF P.sys = "ts" THEN L ELSE TeamSide(P, P.ta, P.tb, "D", 905)
      e == IF me = 1 THEN T(ExpectTeams(P, P.ta, P.tb)) ELSE T(ExpectTeams(P, P.tb, P.ta))
  IN  IfAllOk(<<W, D, L, e>>, LAMBDA o : \A j \in 1..Len(P.ta) :
        LET g == [i \in 1..3 |-> Gain(P.ta[j], o[i][me][j])]
            tol == ExTol(P.sys, g) ** FMax(F1, FAbs(P.ta[j].r) // F100)
        IN  IF P.sys = "ts" THEN FAbs((o[4][me] ** g[1]) ++ ((F1 -- o[4][me]) ** g[3])) \preceq tol
            ELSE BreakEven(g, o[4][me], F0, tol))

\* ==== C46 Of two players with the same result the better rated one stays ahead =================================
Steady(P) ==        \* where the formula does not jump with the rating
  CASE P.sys = "dwz" -> [P EXCEPT !.a.r = FMax(@, FI(1300)), !.a.a = IF @ < 20 THEN 20 ELSE @, !.a.n = IF @ < 6 THEN 6 ELSE @]
    [] P.sys = "sticko" -> [P EXCEPT !.cfg.beta = F0]
    [] P.sys = "gboost" -> [P EXCEPT !.cfg.k = F0]
    [] P.sys = "elo" -> [P EXCEPT !.cfg.k = FMin(@, FI(690))]
    [] OTHER -> P
To350(P) == IF P.sys \in GlickoLike THEN [P EXCEPT !.a.d = FMin(@, F350), !.b.d = FMin(@, F350)] ELSE P
C46_Pair(Q) ==
  LET P == To350(Steady(Q))
      a == Better(P.sys, P.a, Step(P.sys, P.x))
      me == MySide(P, 905)
      s1 == PlayedBy(P, P.a, P.b, P.o, 905)
      s2 == PlayedBy(P, a, P.b, P.o, 905)
  IN  IF P.sys = "ts" /\ ~TsFits(P.cfg, <<a>>, <<P.b>>) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : NotWorse(P.sys, o[1][me], o[2][me]))
C46_Period(Q) ==
  LET P == Steady(Q)
      s1 == T(Period(P, P.a, P.gs))
      s2 == T(Period(P, Better(P.sys, P.a, Step(P.sys, P.x)), P.gs))
  IN  IfAllOk(<<s1, s2>>, LAMBDA o : NotWorse(P.sys, o[1], o[2]))
C46_Teams(P) ==
  LET j == 1 + Rnd(P.x, 904, Len(P.ta))
      ta == [P.ta EXCEPT ![j] = Up(@, Step(P.sys, P.x))]
      me == MySide(P, 905)
      s1 == TeamSide(P, P.ta, P.tb, P.o, 905)
      s2 == TeamSide(P, ta, P.tb, P.o, 905)
  IN  IF P.sys = "ts" /\ ~TsFits(P.cfg, ta, P.tb) THEN Verdict(<<>>, TRUE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : NotWorse(P.sys, o[1][me][j], o[2][me][j]))

\* ==== C47 Whoever won is expected to do no worse in the rematch ================================================
C47_Pair(Q) ==
  LET S == Settled(Q)
      P == CASE Q.sys = "uscf" -> [S EXCEPT !.b.n = IF @ < 9 THEN 9 + @ ELSE @]
             [] Q.sys = "glicko" -> [To350(S) EXCEPT !.cfg.c = F0]
             [] Q.sys = "sticko" -> [To350(S) EXCEPT !.cfg.c = F0, !.cfg.h = F0]
             [] Q.sys = "ts" -> [Q EXCEPT !.cfg.tau = F0]
             [] OTHER -> S
      W == T(Rate(P, P.a, P.b, "W")) L == T(Rate(P, P.a, P.b, "L"))
      e0 == T(Expect(P, P.cfg, P.a, P.b))
      e1 == T(Expect(P, P.cfg, W.r.out[1], W.r.out[2]))
      e2 == T(Expect(P, P.cfg, L.r.out[1], L.r.out[2]))
  IN  IF ~AllOk(<<W, L>>) THEN Verdict(<<W, L>>, FALSE)
      ELSE IfAllOk(<<W, L, e0, e1, e2>>, LAMBDA o :
        LET t == IF P.sys = "ts" THEN FS("5e-7") ELSE FS("1e-9") IN
        o[3][1] \preceq (o[4][1] ++ t) /\ o[5][1] \preceq (o[3][1] ++ t))
C47_Teams(Q) ==
  LET P == IF Q.sys = "ts" THEN [Q EXCEPT !.cfg.tau = F0] ELSE Q
      W == T(Teams(P, P.ta, P.tb, "W")) L == T(Teams(P, P.ta, P.tb, "L"))
      e0 == T(ExpectTeams(P, P.ta, P.tb))
      e1 == T(ExpectTeams(P, W.r.out[1], W.r.out[2]))
      e2 == T(ExpectTeams(P, L.r.out[1], L.r.out[2]))
  IN  IF ~AllOk(<<W, L>>) THEN Verdict(<<W, L>>, FALSE)
      ELSE IfAllOk(<<W, L, e0, e1, e2>>, LAMBDA o :
        LET t == IF P.sys = "ts" THEN FS("5e-7") ELSE FS("1e-9") IN
        o[3][1] \preceq (o[4][1] ++ t) /\ o[5][1] \preceq (o[3][1] ++ t))

\* ==== C48 The same win over and over is worth less each time ===================================================
Rematch(P) ==       \* both players where one formula applies, and no certainty is lost between the games
  LET S == Steady(Settled(P)) IN
  CASE P.sys = "uscf" -> [S EXCEPT !.b.n = IF @ < 9 THEN 9 + @ ELSE @]
    [] P.sys = "glicko" -> [To350(S) EXCEPT !.cfg.c = F0]
    [] P.sys = "sticko" -> [To350(S) EXCEPT !.cfg.c = F0, !.cfg.h = F0]
    [] P.sys = "ts" -> [P EXCEPT !.cfg.tau = F0]
    [] OTHER -> S
Lessens(sys, g1, g2, tol) == (F0 \preceq g1) => g2 \preceq (g1 ++ tol)
C48_Pair(Q) ==
  LET P == Rematch(Q)
      me == MySide(P, 905)
      s1 == PlayedBy(P, P.a, P.b, "W", 905)
      s2 == PlayedBy(P, s1.r.out[me], s1.r.out[3 - me], "W", 905)
      s3 == PlayedBy(P, s2.r.out[me], s2.r.out[3 - me], "W", 905)
  IN  IF ~AllOk(<<s1>>) THEN Verdict(<<s1>>, FALSE)
      ELSE IF ~AllOk(<<s2>>) THEN Verdict(<<s1, s2>>, FALSE)
      ELSE IfAllOk(<<s1, s2, s3>>, LAMBDA o :
        LET x == <<Skill(P.sys, P.a), Skill(P.sys, o[1][me]), Skill(P.sys, o[2][me]), Skill(P.sys, o[3][me])>>
            tol == (IF P.sys = "ts" THEN FS("1e-6") ELSE FS("1e-9")) ** FMax(F1, FAbs(x[1]))
        IN  \A i \in 1..2 : Lessens(P.sys, x[i + 1] -- x[i], x[i + 2] -- x[i + 1], tol))
C48_Teams(Q) ==
  LET P == IF Q.sys = "ts" THEN [Q EXCEPT !.cfg.tau = F0] ELSE Q
      me == MySide(P, 905)
      s1 == TeamSide(P, P.ta, P.tb, "W", 905)
      s2 == TeamSide(P, s1.r.out[me], s1.r.out[3 - me], "W", 905)
  IN  IF ~AllOk(<<s1>>) THEN Verdict(<<s1>>, FALSE)
      ELSE IfAllOk(<<s1, s2>>, LAMBDA o : \A j \in 1..Len(P.ta) :
        LET x == <<P.ta[j].r, o[1][me][j].r, o[2][me][j].r>>
        IN  Lessens(P.sys, x[2] -- x[1], x[3] -- x[2], (IF P.sys = "ts" THEN FS("1e-6") ELSE FS("1e-9")) ** FMax(F1, FAbs(x[1]))))

\* ==== C49 Among equals the ranks decide ========================================================================
C49_Multi(P) ==     \* the same team several times, on the ranks given
  LET n == IF P.sys = "ts" /\ Len(P.ts) > 5 THEN 5 ELSE Len(P.ts)
      ts == [t \in 1..n |-> P.ts[1]]
      \* (TrueSkill compares tied teams with their neighbours in the list only)
      ranks == [i \in 1..n |-> IF P.sys = "ts" THEN 10 * DenseRank(P.ranks, i) + i ELSE P.ranks[i]]
      s == T(Multi(P, ts, ranks, <<>>))
      tol(p) == (IF P.sys = "ts" THEN FS("2e-3") ELSE FS("1e-9")) ** FMax(F1, FAbs(p.r))
  IN  IfAllOk(<<s>>, LAMBDA o : \A i, k \in 1..n : \A j \in 1..Len(ts[1]) :
        /\ ranks[i] < ranks[k] => o[1][k][j].r \preceq (o[1][i][j].r ++ tol(ts[1][j]))
        /\ (ranks[i] = ranks[k] /\ P.sys = "wl") => NearRating(o[1][i][j], o[1][k][j]))

\* ---- Which experiments decide which property ------------------------------------------------------------
SysSeq(s) == SelectSeq(AllSystems, LAMBDA x : x \in s)
AllSet == {AllSystems[i] : i \in 1..Len(AllSystems)}
On(kind, s) == [kind |-> kind, systems |-> SysSeq(s)]
PlanOf(prop) ==
  CASE prop = "C01" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C02" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C03" -> <<On("period", AllSet), On("pair", TeamSystems), On("teams", TeamSystems)>>
    [] prop = "C04" -> <<On("pair", AllSet), On("teams", TeamSystems)>>
    [] prop = "C05" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", {"wl"})>>
    [] prop = "C06" -> <<On("pair", {"elo", "fifa", "ingo", "wl", "ts"}), On("teams", TeamSystems), On("multi", {"wl"})>>
    [] prop = "C07" -> <<On("period", Sequential)>>
    [] prop = "C08" -> <<On("period", Batch)>>
    [] prop = "C09" -> <<On("pair", AllSet)>>
    [] prop = "C10" -> <<On("pair", AllSet)>>
    [] prop = "C11" -> <<On("pair", Deviating), On("period", Deviating), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C12" -> <<On("pair", AllSet \ {"egf"}), On("period", AllSet \ {"egf"}), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C13" -> <<On("pair", {"elo"}), On("period", {"elo"})>>
    [] prop = "C14" -> <<On("pair", {"fifa"}), On("period", {"fifa"})>>
    [] prop = "C15" -> <<On("pair", {"dwz"}), On("period", {"dwz"}), On("first", {"dwz"})>>
    [] prop = "C16" -> <<On("pair", {"ingo"}), On("period", {"ingo"})>>
    [] prop = "C17" -> <<On("pair", {"egf"}), On("period", {"egf"})>>
    [] prop = "C18" -> <<On("pair", {"uscf"}), On("period", {"uscf"})>>
    [] prop = "C19" -> <<On("pair", {"glicko"}), On("period", {"glicko"})>>
    [] prop = "C20" -> <<On("pair", {"glicko2"}), On("period", {"glicko2"})>>
    [] prop = "C21" -> <<On("pair", {"sticko"}), On("period", {"sticko"})>>
    [] prop = "C22" -> <<On("pair", {"gboost"}), On("period", {"gboost"})>>
    [] prop = "C23" -> <<On("pair", {"wl"}), On("period", {"wl"}), On("teams", {"wl"}), On("multi", {"wl"})>>
    [] prop = "C24" -> <<On("pair", {"ts"}), On("period", {"ts"}), On("teams", {"ts"})>>
    [] prop = "C25" -> <<On("multi", {"ts"})>>
    [] prop = "C26" -> <<On("pair", {"glicko"}), On("period", {"glicko"})>>
    [] prop = "C27" -> <<On("teams", TeamSystems), On("multi", TeamSystems), On("two", {"wl"})>>
    [] prop = "C28" -> <<On("multi", TeamSystems)>>
    [] prop = "C29" -> <<On("pair", {"ts"}), On("teams", {"ts"}), On("multi", {"ts"})>>
    [] prop = "C30" -> <<On("multi", {"ts"})>>
    [] prop = "C31" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C32" -> <<On("pair", AllSet)>>
    [] prop = "C33" -> <<On("pair", AllSet)>>
    [] prop = "C34" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", TeamSystems), On("first", {"dwz"})>>
    [] prop = "C36" -> <<On("pair", AllSet), On("period", AllSet), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C37" -> <<On("pair", GlickoLike \cup {"ts"})>>
    [] prop = "C38" -> <<On("pair", AllSet), On("period", AllSet \ GlickoLike), On("teams", TeamSystems), On("multi", {"wl"})>>
    [] prop = "C39" -> <<On("pair", Deviating), On("period", {"glicko", "sticko", "gboost"}), On("teams", TeamSystems)>>
    [] prop = "C40" -> <<On("pair", {"elo", "fifa", "wl", "ts"}), On("period", TeamSystems), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C41" -> <<On("period", Batch)>>
    [] prop = "C42" -> <<On("pair", AllSet \ {"egf"}), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C43" -> <<On("pair", Deviating), On("period", Deviating), On("teams", TeamSystems), On("multi", TeamSystems)>>
    [] prop = "C44" -> <<On("pair", {"dwz", "ingo", "uscf"}), On("period", {"dwz", "ingo", "uscf"})>>
    [] prop = "C45" -> <<On("pair", AllSet \ {"glicko2"}), On("period", AllSet \ {"glicko2", "ts"}), On("teams", TeamSystems)>>
    [] prop = "C46" -> <<On("pair", AllSet), On("period", {"elo", "fifa", "ingo"}), On("teams", TeamSystems)>>
    [] prop = "C48" -> <<On("pair", AllSet \ {"egf", "glicko2", "gboost"}), On("teams", TeamSystems)>>
    [] prop = "C49" -> <<On("multi", TeamSystems)>>
    [] prop = "C47" -> <<On("pair", AllSet \ {"egf", "ingo", "glicko2", "gboost"}), On("teams", TeamSystems)>>

\* Properties that TrueSkill keeps however far the sides are apart
FarProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C12", "C24", "C27", "C28", "C29", "C30", "C31", "C36", "C40", "C42"}
Laws == {"C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"}
Experiment(prop, kind, P) ==
  CASE prop \in Laws ->
         (CASE kind = "pair" -> Law_Pair(P) [] kind = "period" -> Law_Period(P) [] kind = "teams" -> Law_Teams(P)
            [] kind = "multi" -> Law_Multi(P) [] kind = "first" -> Law_First(P))
    [] prop = "C01" -> (CASE kind = "pair" -> C01_Pair(P) [] kind = "period" -> C01_Period(P) [] kind = "teams" -> C01_Teams(P) [] kind = "multi" -> C01_Multi(P))
    [] prop = "C02" -> (CASE kind = "pair" -> C02_Pair(P) [] kind = "period" -> C02_Period(P) [] kind = "teams" -> C02_Teams(P) [] kind = "multi" -> C02_Multi(P))
    [] prop = "C03" -> (CASE kind = "pair" -> C03_Pair(P) [] kind = "period" -> C03_Period(P) [] kind = "teams" -> C03_Teams(P))
    [] prop = "C04" -> (CASE kind = "pair" -> C04_Pair(P) [] kind = "teams" -> C04_Teams(P))
    [] prop = "C05" -> (CASE kind = "pair" -> C05_Pair(P) [] kind = "period" -> C05_Period(P) [] kind = "teams" -> C05_Teams(P) [] kind = "multi" -> C05_Multi(P))
    [] prop = "C06" -> (CASE kind = "pair" -> C06_Pair(P) [] kind = "teams" -> C06_Teams(P) [] kind = "multi" -> C06_Multi(P))
    [] prop = "C07" -> C07_Period(P)
    [] prop = "C08" -> C08_Period(P)
    [] prop = "C09" -> C09_Pair(P)
    [] prop = "C10" -> C10_Pair(P)
    [] prop = "C11" -> (CASE kind = "pair" -> C11_Pair(P) [] kind = "period" -> C11_Period(P) [] kind = "teams" -> C11_Teams(P) [] kind = "multi" -> C11_Multi(P))
    [] prop = "C12" -> (CASE kind = "pair" -> C12_Pair(P) [] kind = "period" -> C12_Period(P) [] kind = "teams" -> C12_Teams(P) [] kind = "multi" -> C12_Multi(P))
    [] prop = "C26" -> (CASE kind = "pair" -> C26_Pair(P) [] kind = "period" -> C26_Period(P))
    [] prop = "C27" -> (CASE kind = "teams" -> C27_Teams(P) [] kind = "multi" -> C27_Multi(P) [] kind = "two" -> C27_Two(P))
    [] prop = "C28" -> C28_Multi(P)
    [] prop = "C29" -> (CASE kind = "pair" -> C29_Pair(P) [] kind = "teams" -> C29_Teams(P) [] kind = "multi" -> C29_Multi(P))
    [] prop = "C30" -> C30_Multi(P)
    [] prop = "C31" -> (CASE kind = "pair" -> C31_Pair(P) [] kind = "period" -> C31_Period(P) [] kind = "teams" -> C31_Teams(P) [] kind = "multi" -> C31_Multi(P))
    [] prop = "C32" -> C32_Pair(P)
    [] prop = "C33" -> C33_Pair(P)
    [] prop = "C34" -> (CASE kind = "pair" -> C34_Pair(P) [] kind = "period" -> C34_Period(P) [] kind = "teams" -> C34_Teams(P)
                          [] kind = "multi" -> C34_Multi(P) [] kind = "first" -> C34_First(P))
    [] prop = "C36" -> (CASE kind = "pair" -> C36_Pair(P) [] kind = "period" -> C36_Period(P) [] kind = "teams" -> C36_Teams(P) [] kind = "multi" -> C36_Multi(P))
    [] prop = "C37" -> C37_Pair(P)
    [] prop = "C38" -> (CASE kind = "pair" -> C38_Pair(P) [] kind = "period" -> C38_Period(P) [] kind = "teams" -> C38_Teams(P) [] kind = "multi" -> C38_Multi(P))
    [] prop = "C39" -> (CASE kind = "pair" -> C39_Pair(P) [] kind = "period" -> C39_Period(P) [] kind = "teams" -> C39_Teams(P))
    [] prop = "C40" -> (CASE kind = "pair" -> (IF P.sys \in TeamSystems THEN C40_Pair(P) ELSE C40_K(P)) [] kind = "period" -> C40_Period(P)
                          [] kind = "teams" -> C40_Teams(P) [] kind = "multi" -> C40_Multi(P))
    [] prop = "C41" -> C41_Period(P)
    [] prop = "C42" -> (CASE kind = "pair" -> C42_Pair(P) [] kind = "teams" -> C42_Teams(P) [] kind = "multi" -> C42_Multi(P))
    [] prop = "C43" -> (CASE kind = "pair" -> C43_Pair(P) [] kind = "period" -> C43_Period(P) [] kind = "teams" -> C43_Teams(P) [] kind = "multi" -> C43_Multi(P))
    [] prop = "C44" -> (CASE kind = "pair" -> C44_Pair(P) [] kind = "period" -> C44_Period(P))
    [] prop = "C45" -> (CASE kind = "pair" -> C45_Pair(P) [] kind = "period" -> (IF P.sys \in {"dwz", "ingo", "uscf"} /\ Chance(P.x, 903, 2) THEN C45_Period(P) ELSE C45_One(P)) [] kind = "teams" -> C45_Teams(P))
    [] prop = "C46" -> (CASE kind = "pair" -> C46_Pair(P) [] kind = "period" -> C46_Period(P) [] kind = "teams" -> C46_Teams(P))
    [] prop = "C48" -> (CASE kind = "pair" -> C48_Pair(P) [] kind = "teams" -> C48_Teams(P))
    [] prop = "C49" -> C49_Multi(P)
    [] prop = "C47" -> (CASE kind = "pair" -> C47_Pair(P) [] kind = "teams" -> C47_Teams(P))
=============================================================================
