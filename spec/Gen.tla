-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* What the experiments are made of: small grids of corner cases that are  *)
(* enumerated exhaustively, and pseudo-random parameters (a function of    *)
(* the seed) that lean towards the boundaries of the laws.                 *)
(*                                                                         *)
(* The parameters of an experiment are a record with the fields            *)
(*   sys, cfg, a, b, o      a game of a against b with outcome o           *)
(*   gs                     the games of a rating period of a              *)
(*   ta, tb / ts, ranks, wt two teams / several ranked, weighted teams     *)
(*   x                      an index into the pseudo-random numbers from   *)
(*                          which an experiment takes further choices      *)
(***************************************************************************)
EXTENDS Systems, Harness

Pick(i, k, s) == s[1 + Rnd(i, k, Len(s))]
Chance(i, k, n) == Rnd(i, k, n) = 0              \* one time in n

\* A real number in [lo, hi] (integers): special values, literals of the code, anything
Real(sys, i, k, lo, hi, specials) ==
  LET m == Rnd(i, k, 10)
      d == Pick(i, k + 1, Dict(sys))
      in(x) == FI(lo) \preceq x /\ x \preceq FI(hi)
      t == Rnd(i, k + 2, 8)
      near == CASE t = 0 -> d ++ F1 [] t = 1 -> d -- F1 [] t = 2 -> d ++ FS("0.01") [] t = 3 -> d -- FS("0.01")
                [] t = 4 -> FNeg(d) [] t = 5 -> d // F2 [] t = 6 -> d ++ RndReal(i, k + 4, 0, 100) [] OTHER -> d -- RndReal(i, k + 4, 0, 100)
      any == RndReal(i, k + 3, lo, hi)
  IN  IF m <= 1 THEN Pick(i, k + 4, specials)
      ELSE IF m = 2 THEN (IF in(d) THEN d ELSE any)
      ELSE IF m = 3 THEN (IF in(near) THEN near ELSE any)
      ELSE any
BigWholes == <<100, 127, 128, 255, 256, 257, 500, 1000, 32768, 65535, 65536, 65537, 100000, 1000000>>
Whole(sys, i, k, lo, hi, specials) ==
  LET m == Rnd(i, k, 20)
      d == FRound(Pick(i, k + 1, Dict(sys))) + (Rnd(i, k + 2, 3) - 1)
  IN  IF m <= 5 THEN Pick(i, k + 4, specials)
      ELSE IF m <= 9 /\ d >= lo /\ d <= 1000000 THEN d
      ELSE IF m = 10 THEN Pick(i, k + 4, BigWholes)
      ELSE lo + Rnd(i, k + 3, hi - lo + 1)
\* A length: mostly one of the usual ones, sometimes anything up to max, sometimes near a literal,
\* rarely up to much more
Length(sys, i, k, usual, max, most) ==
  LET m == Rnd(i, k, 144)
      d == FRound(Pick(i, k + 1, Dict(sys))) + (Rnd(i, k + 2, 3) - 1)
  IN  IF m = 0 THEN 1 + Rnd(i, k + 3, most)
      ELSE IF m <= 12 THEN 1 + Rnd(i, k + 3, max)
      ELSE IF m <= 24 /\ d >= 1 /\ d <= max THEN d
      ELSE IF m = 25 /\ d >= 1 /\ d <= most THEN d
      ELSE Pick(i, k + 4, usual)
\* x, or now and then a literal of the code that lies between lo and hi
OrLiteral(sys, i, k, lo, hi, x) ==
  LET d == Pick(i, k, Dict(sys)) IN IF Chance(i, k + 1, 6) /\ FS(lo) \preceq d /\ d \preceq FS(hi) THEN d ELSE x
FSeq(s) == MapSeq(FS, s)
FMaxI(x, y) == IF x > y THEN x ELSE y

\* ---- Ratings ---------------------------------------------------------------------------------
Span(sys) ==      \* the ratings the properties are stated for
  CASE sys \in {"elo", "fifa"} -> <<-3000, 6000>>
    [] sys = "dwz" -> <<0, 4000>>
    [] sys = "ingo" -> <<-200, 600>>
    [] sys = "egf" -> <<-900, 3100>>
    [] sys = "uscf" -> <<100, 3500>>
    [] sys \in GlickoLike -> <<-1000, 5000>>
    [] sys \in TeamSystems -> <<-100, 150>>
Usual(sys) ==     \* ... most of them in here
  CASE sys \in {"elo", "fifa"} -> <<0, 3000>>
    [] sys = "dwz" -> <<0, 3000>>
    [] sys = "ingo" -> <<-50, 350>>
    [] sys = "egf" -> <<-900, 3100>>
    [] sys = "uscf" -> <<100, 3000>>
    [] sys \in GlickoLike -> <<0, 3000>>
    [] sys \in TeamSystems -> <<-10, 60>>
SpecialRatings == [
  elo |-> FSeq(<<"0", "400", "1000", "1500", "2000", "2400", "2800">>),
  fifa |-> FSeq(<<"0", "600", "1000", "1600", "1800", "2400">>),
  dwz |-> FSeq(<<"0", "500", "799.5", "800", "1000", "1299.9", "1300", "1300.1", "1500", "2000", "2500">>),
  ingo |-> FSeq(<<"0", "50", "100", "125", "150", "230", "300">>),
  egf |-> FSeq(<<"-900", "-899.5", "-880", "0", "100", "1000", "2100", "2299", "2300", "2301", "2700", "3000">>),
  uscf |-> FSeq(<<"100", "101", "110", "1300", "1500", "2000", "2199", "2200", "2354.9", "2355", "2355.1", "2400", "2569", "2800">>),
  glicko |-> FSeq(<<"0", "1000", "1400", "1500", "1550", "1700", "2500">>),
  glicko2 |-> FSeq(<<"0", "1000", "1400", "1500", "1550", "1700", "2500">>),
  sticko |-> FSeq(<<"0", "1000", "1400", "1500", "1550", "1700", "2500">>),
  gboost |-> FSeq(<<"0", "1000", "1400", "1500", "1550", "1700", "2500">>),
  wl |-> FSeq(<<"0", "15", "20", "25", "30", "40">>),
  ts |-> FSeq(<<"0", "15", "20", "25", "30", "40">>) ]
SpecialDevs == FSeq(<<"30", "50", "63.2", "100", "200", "349.9", "350", "350">>)
SpecialVols == FSeq(<<"0.06", "0.059", "0.03", "0.1">>)
SpecialSigmas == FSeq(<<"8.333333333333334", "4", "1", "2", "0.5">>)
SpecialAges == <<0, 1, 5, 17, 18, 19, 20, 21, 24, 25, 26, 27, 60>>
SpecialIndices == <<1, 2, 3, 4, 5, 6, 7>>
SpecialGames == <<0, 1, 4, 7, 8, 9, 10, 49, 50, 51>>

Rating(sys, i, k) ==
  LET r == IF Chance(i, k + 13, 8) THEN Real(sys, i, k, Span(sys)[1], Span(sys)[2], SpecialRatings[sys])
           ELSE Real(sys, i, k, Usual(sys)[1], Usual(sys)[2], SpecialRatings[sys])
      \* (no system lets a deviation grow beyond 350, but nothing keeps one from starting there)
      dev == IF Chance(i, k + 18, 24) THEN RndReal(i, k + 19, 350, 700)
             ELSE Real(sys, i, k + 5, IF Chance(i, k + 14, 8) THEN 1 ELSE 20, 350, SpecialDevs)
  IN  CASE sys \in {"elo", "fifa", "egf"} -> [r |-> r]
        [] sys = "dwz" -> [r |-> r, n |-> Whole(sys, i, k + 5, 1, 40, SpecialIndices), a |-> Whole(sys, i, k + 10, 0, 100, SpecialAges)]
        [] sys = "ingo" -> [r |-> r, a |-> Whole(sys, i, k + 10, 0, 100, SpecialAges)]
        [] sys = "uscf" -> [r |-> r, n |-> Whole(sys, i, k + 5, 0, 120, SpecialGames)]
        [] sys \in {"glicko", "sticko", "gboost"} -> [r |-> r, d |-> dev]
        [] sys = "glicko2" -> [r |-> r, d |-> dev,
                               v |-> OrLiteral(sys, i, k + 16, "0.001", "0.3",
                                       IF Chance(i, k + 10, 3) THEN Pick(i, k + 11, SpecialVols)
                                       ELSE IF Chance(i, k + 15, 6) THEN RndReal(i, k + 12, 1, 300) // F1000
                                       ELSE RndReal(i, k + 12, 20, 150) // F1000)]
        [] sys \in TeamSystems -> [r |-> r, d |-> OrLiteral(sys, i, k + 16, "0.05", "30",
                                                     IF Chance(i, k + 5, 3) THEN Pick(i, k + 6, SpecialSigmas)
                                                     ELSE IF Chance(i, k + 10, 8) THEN RndReal(i, k + 7, 5, 3000) // F100
                                                     ELSE RndReal(i, k + 7, 40, 1200) // F100)]
\* A second rating that often shares something with the first
Partner(sys, a, i, k) ==
  LET b == Rating(sys, i, k)
      m == Rnd(i, k + 20, 12)
  IN  IF m = 0 THEN a ELSE IF m = 1 THEN [b EXCEPT !.r = a.r] ELSE IF m = 2 THEN [a EXCEPT !.r = b.r]
      ELSE IF m = 3 THEN [b EXCEPT !.r = Clamp((IF Chance(i, k + 22, 2) THEN a.r ++ Pick(i, k + 23, Dict(sys)) ELSE a.r -- Pick(i, k + 23, Dict(sys))),
                                                  FI(Span(sys)[1]), FI(Span(sys)[2]))]
      ELSE IF m <= 6 THEN [b EXCEPT !.r = Clamp(a.r ++ RndReal(i, k + 21, -30, 30), FI(Span(sys)[1]), FI(Span(sys)[2]))]
      ELSE IF m = 7 /\ Chance(i, k + 22, 3)       \* almost the same
           THEN [b EXCEPT !.r = Clamp(a.r ++ (RndReal(i, k + 21, -30, 30) ** Pick(i, k + 23, FSeq(<<"0.1", "0.01", "0.0001", "0.0000001">>))),
                                      FI(Span(sys)[1]), FI(Span(sys)[2]))]
      ELSE b

\* ---- Configurations -----------------------------------------------------------------------------
EgfRoom(h, p, q) ==   \* the handicap leaves both effective ratings below 3300
  LET top == FMax(p.r, q.r) IN (top ++ (F100 ** FAbs(h))) \prec FI(3200)
Handicap(i, k, p, q) ==
  LET h == IF Chance(i, k, 3) THEN F0
           ELSE Real("egf", i, k + 1, -9, 9, FSeq(<<"1", "2", "3", "5", "9", "-1", "-2", "-4", "-9", "0.5", "-0.5", "0.75", "-0.75", "0.25", "-0.25">>))
  IN  IF EgfRoom(h, p, q) THEN h ELSE F0
Config(sys, i, k) ==
  IF Chance(i, k, 3) THEN DefaultConfig(sys)
  ELSE CASE sys = "elo" -> [k |-> Real(sys, i, k + 1, 1, IF Chance(i, k + 6, 4) THEN 1000 ELSE 120, FSeq(<<"10", "16", "20", "24", "32", "40">>))]
         [] sys = "fifa" -> [imp |-> Real(sys, i, k + 5, 1, 100, FSeq(<<"5", "10", "15", "25", "35", "40", "50", "60">>)),
                             ko |-> Chance(i, k + 2, 2), pen |-> Chance(i, k + 3, 2)]
         [] sys = "uscf" -> [t |-> Real(sys, i, k + 1, 0, IF Chance(i, k + 6, 6) THEN 200 ELSE 30, FSeq(<<"0", "1", "6", "10", "12", "14">>))]
         [] sys = "glicko" -> [c |-> Real(sys, i, k + 1, 0, IF Chance(i, k + 6, 6) THEN 600 ELSE 200, FSeq(<<"0", "10", "63.2">>))]
         [] sys = "glicko2" -> [tau |-> OrLiteral(sys, i, k + 31, "0.05", "1.2", RndReal(i, k + 1, IF Chance(i, k + 3, 4) THEN 5 ELSE 20, 120) // F100),
                                tol |-> Pick(i, k + 2, FSeq(<<"0.000001", "0.000001", "0.0001", "0.00000001", "0.001">>))]
         [] sys = "sticko" -> [h |-> Real(sys, i, k + 1, 0, 100, FSeq(<<"0", "10">>)), beta |-> IF Chance(i, k + 5, 2) THEN F0 ELSE RndReal(i, k + 6, -10, 50) // F100,
                               lambda |-> Real(sys, i, k + 7, 0, 10, FSeq(<<"0", "2">>)), gamma |-> Real(sys, i, k + 12, -60, 60, FSeq(<<"0", "30", "-30">>)),
                               c |-> Real(sys, i, k + 17, 0, 150, FSeq(<<"0", "10">>))]
         [] sys = "gboost" -> LET d == DefaultConfig(sys)
                                  scaled(x, n) == IF Chance(i, k + n, 2) THEN x ELSE x ** (RndReal(i, k + n + 1, 0, 200) // F100)
                              IN  [d EXCEPT !.eta = Real(sys, i, k + 1, -60, 60, FSeq(<<"0", "30", "-30">>)),
                                            !.k = IF Chance(i, k + 6, 2) THEN RndReal(i, k + 6, 0, 300) // F100 ELSE Pick(i, k + 6, FSeq(<<"0", "1.96", "1", "0.5", "2.5">>)),
                                            !.b1 = OrLiteral(sys, i, k + 31, "0", "1", RndReal(i, k + 7, 0, 100) // F100), !.b2 = RndReal(i, k + 8, 0, 40),
                                            !.a0 = RndReal(i, k + 9, 0, 80) // F10,
                                            !.a1 = scaled(d.a1, 10), !.a2 = scaled(d.a2, 12), !.a3 = scaled(d.a3, 14), !.a4 = scaled(d.a4, 16)]
         [] sys = "wl" -> [beta |-> OrLiteral(sys, i, k + 31, "0.2", "40",
                                      RndReal(i, k + 1, IF Chance(i, k + 3, 6) THEN 20 ELSE 100, IF Chance(i, k + 3, 4) THEN 4000 ELSE 1000) // F100),
                           tol |-> OrLiteral(sys, i, k + 33, "0.000001", "1", Pick(i, k + 2, FSeq(<<"0.000001", "0.000001", "0.0001", "0.01", "0.5", "0.9", "0.99", "1">>)))]
         [] sys = "ts" -> LET b == OrLiteral(sys, i, k + 31, "0.5", "30",
                                     RndReal(i, k + 2, IF Chance(i, k + 5, 6) THEN 50 ELSE 200, IF Chance(i, k + 5, 4) THEN 3000 ELSE 900) // F100)
                          IN  [dp |-> OrLiteral(sys, i, k + 33, "0.001", "0.95",
                                        IF Chance(i, k + 4, 6) THEN RndReal(i, k + 1, 1, 950) // F1000 ELSE RndReal(i, k + 1, 1, 60) // F100),
                               beta |-> b,
                               \* more than sqrt(2) * beta is the listed finding ts-dynamics-nan, see C34
                               tau |-> FMin(b, Pick(i, k + 3, <<F0, FI(25) // FI(300), FS("0.5"), F2, FS("0.01")>>))]
         [] OTHER -> DefaultConfig(sys)

\* TrueSkill is stated for games whose result is not more than some 12 standard deviations away
TsWidth(cfg, t1, t2) == FAbs(TS_Mu(t1) -- TS_Mu(t2)) // TS_c(cfg, t1, t2)
TsFits(cfg, t1, t2) == TsWidth(cfg, t1, t2) \preceq FI(12)
Tame(p) == [p EXCEPT !.r = FI(20) ++ (p.r // F10)]       \* pulls a skill towards the crowd

\* ---- Games and teams ----------------------------------------------------------------------------
OutcomeAt(i, k) == Pick(i, k, <<"W", "D", "L">>)
Fit(sys, cfg, a, b) == IF sys = "ts" /\ ~TsFits(cfg, <<a>>, <<b>>) THEN [b EXCEPT !.r = a.r ++ (b.r // F10)] ELSE b
PeriodLens == <<0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 15, 24>>
GameAt(sys, cfg, a, i, k) ==
  LET q == Fit(sys, cfg, a, Partner(sys, a, i, k))
  IN  Game(q, OutcomeAt(i, k + 30), Chance(i, k + 31, 2),
           CASE sys = "egf" -> [h |-> Handicap(i, k + 32, a, q)]
             [] sys = "fifa" -> Config("fifa", i, k + 33)
             [] OTHER -> cfg)
GamesAt(sys, cfg, a, n, i, k) ==
  LET one == Chance(i, k, 6)                      \* everybody with the same result
      res == OutcomeAt(i, k + 1)
      raw == [j \in 1..n |-> GameAt(sys, cfg, a, i, k + 40 * j)]
      \* occasionally the same opponent again
      dup == [j \in 1..n |-> IF j > 1 /\ Chance(i, k + 40 * j + 39, 8) THEN raw[1] ELSE raw[j]]
  IN  IF one THEN [j \in 1..n |-> [dup[j] EXCEPT !.o = res]] ELSE dup

TeamAt(sys, n, i, k) ==
  LET first == Rating(sys, i, k)
  IN  [j \in 1..n |-> IF j > 1 /\ Chance(i, k + 30 * j + 25, 6) THEN first ELSE Rating(sys, i, k + 30 * j)]
TeamSizes == <<1, 1, 1, 2, 2, 2, 3, 3, 4, 5>>
TameTeam(t) == MapSeq(Tame, t)
TeamCounts == <<1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5>>
\* Rank patterns: distinct, with ties, with gaps, all equal
RanksAt(n, i, k) ==
  LET m == Rnd(i, k, 6)
  IN  CASE m = 0 -> [j \in 1..n |-> j]
        [] m = 1 -> [j \in 1..n |-> n + 1 - j]
        [] m = 2 -> [j \in 1..n |-> 1 + Rnd(i, k + j, 2)]
        [] m = 3 -> [j \in 1..n |-> 1 + Rnd(i, k + j, n)]
        [] m = 4 -> [j \in 1..n |-> Rnd(i, k + j, Pick(i, k + 60, <<300, 1000000, 2000000000>>))]
        [] OTHER -> [j \in 1..n |-> (j * 7 + Rnd(i, k, 50)) % 11]
WeightsAt(ts, i, k) ==
  IF ~Chance(i, k, 3) THEN <<>>
  ELSE <<[t \in 1..Len(ts) |-> [j \in 1..Len(ts[t]) |->
           IF j # 1 + (t % Len(ts[t])) /\ Chance(i, k + 20 * t + j, 6) THEN F0
           ELSE LET w == Pick(i, k + 1000 + 20 * t + j, FSeq(<<"1", "1", "0.5", "0.25", "0.9", "2", "0.1", "1.5", "0", "0">>))
                IN  IF F0 \prec w THEN w
                    ELSE FMax(Real("ts", i, k + 2000 + 100 * t + 5 * j, 0, 3, FSeq(<<"1.2", "3", "0.01", "1.01">>)), FS("0.01"))]]>>

\* ---- Random parameters of experiment i -------------------------------------------------------------
PairAt(sys, i) ==
  LET cfg0 == Config(sys, i, 100)
      a == Rating(sys, i, 200)
      b == Fit(sys, cfg0, a, Partner(sys, a, i, 300))
      cfg == IF sys = "egf" THEN [h |-> Handicap(i, 150, a, b)] ELSE cfg0
  IN  [sys |-> sys, cfg |-> cfg, a |-> a, b |-> b, o |-> OutcomeAt(i, 400), x |-> i]
PeriodAt(sys, i) ==
  LET cfg == Config(sys, i, 100)
      a == Rating(sys, i, 200)
      gs == GamesAt(sys, cfg, a, Length(sys, i, 401, PeriodLens, IF sys = "ts" THEN 30 ELSE 48, IF sys = "ts" THEN 120 ELSE 300), i, 500)
  IN  [sys |-> sys, cfg |-> IF sys = "egf" THEN (IF gs = <<>> THEN [h |-> F0] ELSE gs[1].cfg) ELSE cfg,
       a |-> a, gs |-> gs, x |-> i]
TeamsAt(sys, i) ==
  LET cfg == Config(sys, i, 100)
      na == Length(sys, i, 405, TeamSizes, 10, 40)
      nb == IF Chance(i, 402, 2) THEN na ELSE Length(sys, i, 411, TeamSizes, 10, 40)
      ta == TeamAt(sys, na, i, 500)
      tb == IF Chance(i, 404, 10) THEN ta ELSE TeamAt(sys, nb, i, 9000)
      fits == sys # "ts" \/ TsFits(cfg, ta, tb)
      mid == LET t == TameTeam(ta) u == TameTeam(tb) IN IF TsFits(cfg, t, u) THEN <<t, u>> ELSE <<t, [j \in 1..Len(u) |-> t[1]]>>
      both == IF fits THEN <<ta, tb>> ELSE IF TsFits(cfg, mid[1], mid[2]) THEN mid ELSE <<ta, ta>>
  IN  [sys |-> sys, cfg |-> cfg, ta |-> both[1], tb |-> both[2], o |-> OutcomeAt(i, 400), x |-> i]
MultiAt(sys, i) ==
  LET cfg == Config(sys, i, 100)
      n == Length(sys, i, 405, TeamCounts, 9, IF sys = "ts" THEN 14 ELSE 40)
      same == Length(sys, i, 412, TeamSizes, 7, 40)
      size(t) == IF Chance(i, 402, 2) THEN same ELSE Length(sys, i, 2000 + 10 * t, TeamSizes, 7, 16)
      cap == IF n > 9 THEN 2 ELSE IF n > 5 THEN 3 ELSE IF n > 3 THEN 16 ELSE 40
      ts1 == [t \in 1..n |-> TeamAt(sys, IF size(t) > cap THEN cap ELSE size(t), i, 3000 + 1000 * t)]
      ts0 == [t \in 1..n |-> IF t > 1 /\ Chance(i, 2500 + t, 12) THEN ts1[1] ELSE ts1[t]]    \* sometimes the same team again
      \* keep all strengths within reach of each other
      ts == IF sys = "ts" /\ \E s \in 1..n, t \in 1..n : FI(4) \prec TsWidth(cfg, ts0[s], ts0[t])
            THEN [t \in 1..n |-> LET u == TameTeam(ts0[t])
                                     z == (FI(20) // FI(Len(u)))
                                 IN  [j \in 1..Len(u) |-> [u[j] EXCEPT !.r = z ++ (u[j].r // F10)]]]
            ELSE ts0
  IN  [sys |-> sys, cfg |-> cfg, ts |-> ts, ranks |-> RanksAt(n, i, 430), wt |-> IF sys = "ts" THEN WeightsAt(ts, i, 450) ELSE <<>>, x |-> i]

FirstLens == <<0, 1, 2, 3, 4, 5, 5, 5, 6, 6, 7, 8, 10, 15, 20, 24, 50, 100>>
FirstAt(i) ==       \* the first DWZ: results against rated opponents
  LET a == Rating("dwz", i, 200)
      n == Length("dwz", i, 401, FirstLens, 60, 400)
      gs == GamesAt("dwz", DefaultConfig("dwz"), a, n, i, 500)
      one == Pick(i, 402, <<"W", "L">>)
      odd == 1 + Rnd(i, 403, FMaxI(n, 1))
      m == Rnd(i, 404, 4)       \* all alike, all alike but one, or anything
  IN  [sys |-> "dwz", cfg |-> DefaultConfig("dwz"), age |-> a.a, x |-> i,
       gs |-> IF m > 1 THEN gs ELSE [j \in 1..n |-> [gs[j] EXCEPT !.o = IF m = 1 /\ j = odd THEN gs[j].o ELSE one]]]
ParamsAt(kind, sys, i) ==
  CASE kind = "pair" -> PairAt(sys, i) [] kind = "period" -> PeriodAt(sys, i) [] kind \in {"teams", "two"} -> TeamsAt(sys, i)
    [] kind = "multi" -> MultiAt(sys, i) [] kind = "first" -> FirstAt(i)

\* TrueSkill games between sides that are any number of standard deviations apart
FarAt(kind, i) ==
  LET P == ParamsAt(kind, "ts", i)
      gap(k) == RndReal(i, k, -400, 400) // Pick(i, k + 1, <<F1, F1, F2, F10>>)
      off(p, k) == [p EXCEPT !.r = Clamp(p.r ++ gap(k), FI(-500), FI(500))]
  IN  CASE kind = "pair" -> [P EXCEPT !.b = off(P.b, 950)]
        [] kind = "period" -> [P EXCEPT !.gs = [j \in 1..Len(P.gs) |-> IF Chance(i, 960 + 4 * j, 2) THEN [P.gs[j] EXCEPT !.q = off(P.gs[j].q, 961 + 4 * j)] ELSE P.gs[j]]]
        [] kind = "teams" -> [P EXCEPT !.tb = [j \in 1..Len(P.tb) |-> off(P.tb[j], 950)]]
        [] kind = "multi" -> [P EXCEPT !.ts = [t \in 1..Len(P.ts) |-> IF Chance(i, 960 + 4 * t, 2) THEN [j \in 1..Len(P.ts[t]) |-> off(P.ts[t][j], 961 + 4 * t)] ELSE P.ts[t]]]
        [] OTHER -> P

\* ---- Exhaustive grids ---------------------------------------------------------------------------------
RS(s) == FS(s)
CornersOf(sys) ==
  CASE sys \in {"elo", "fifa"} -> {[r |-> RS(s)] : s \in {"0", "1000", "1500", "1532.5", "2800"}}
    [] sys = "egf" -> {[r |-> RS(s)] : s \in {"-900", "-890", "100", "2100", "2300", "2900"}}
    [] sys = "dwz" -> {[r |-> FI(500), n |-> 1, a |-> 17], [r |-> F1300, n |-> 2, a |-> 20], [r |-> FI(1299), n |-> 7, a |-> 26],
                       [r |-> FI(1800), n |-> 30, a |-> 19], [r |-> FI(2600), n |-> 6, a |-> 25]}
    [] sys = "ingo" -> {[r |-> F0, a |-> 26], [r |-> FI(90), a |-> 20], [r |-> FI(115), a |-> 21], [r |-> FI(230), a |-> 25], [r |-> FI(300), a |-> 12]}
    [] sys = "uscf" -> {[r |-> F100, n |-> 0], [r |-> F1300, n |-> 8], [r |-> F1300, n |-> 9], [r |-> FI(105), n |-> 60],
                        [r |-> FI(2355), n |-> 50], [r |-> FI(2800), n |-> 12]}
    [] sys \in {"glicko", "sticko", "gboost"} ->
         {[r |-> F1500, d |-> F350], [r |-> F1500, d |-> FI(30)], [r |-> FI(1700), d |-> FI(300)], [r |-> FI(1400), d |-> FI(80)], [r |-> FI(2600), d |-> FI(60)]}
    [] sys = "glicko2" ->
         {[r |-> F1500, d |-> F350, v |-> FS("0.06")], [r |-> F1500, d |-> FI(30), v |-> FS("0.1")], [r |-> FI(1700), d |-> FI(300), v |-> FS("0.03")],
          [r |-> FI(1400), d |-> FI(80), v |-> FS("0.06")], [r |-> FI(2600), d |-> FI(60), v |-> FS("0.05")]}
    [] sys \in TeamSystems -> {[r |-> Mu0, d |-> Sigma0], [r |-> Mu0, d |-> F1], [r |-> FI(40), d |-> F2], [r |-> F10, d |-> FI(4)], [r |-> FI(30), d |-> FS("1.5")]}
FewCorners(sys) == \* three of them, for the players of longer sequences
  LET s == SetToSeq(CornersOf(sys)) IN {s[1], s[2], s[4]}
ConfigCorners(sys) ==
  {DefaultConfig(sys)} \cup
  (CASE sys = "elo" -> {[k |-> F10]}
     [] sys = "fifa" -> {[imp |-> FI(60), ko |-> TRUE, pen |-> FALSE], [imp |-> FI(35), ko |-> FALSE, pen |-> TRUE], [imp |-> FI(25), ko |-> TRUE, pen |-> TRUE]}
     [] sys = "egf" -> {[h |-> F3], [h |-> FI(-2)]}
     [] sys = "uscf" -> {[t |-> F1]}
     [] sys = "glicko" -> {[c |-> F0]}
     [] sys = "glicko2" -> {[tau |-> F1, tol |-> FS("0.0001")]}
     [] sys = "sticko" -> {[h |-> F0, beta |-> F0, lambda |-> F0, gamma |-> F0, c |-> FI(63)], [h |-> FI(40), beta |-> FS("0.1"), lambda |-> F5, gamma |-> F30, c |-> FI(20)]}
     [] sys = "gboost" -> {[DefaultConfig(sys) EXCEPT !.eta = F0, !.k = F0], [DefaultConfig(sys) EXCEPT !.k = Half]}
     [] sys = "wl" -> {[beta |-> FI(8), tol |-> Half]}
     [] sys = "ts" -> {[dp |-> FS("0.4"), beta |-> F3, tau |-> F0]}
     [] OTHER -> {})

GridPairs(sys, cfg) ==
  {p \in [sys : {sys}, cfg : {cfg}, a : CornersOf(sys), b : CornersOf(sys), o : Outcomes, x : {1, 2}] :
     /\ sys = "egf" => EgfRoom(cfg.h, p.a, p.b)
     /\ sys = "ts" => TsFits(cfg, <<p.a>>, <<p.b>>)}
GridGames(sys, cfg, a) ==
  LET cfgs == IF sys \in PerGameCfg THEN ConfigCorners(sys) ELSE {cfg}
  IN  {g \in [q : FewCorners(sys), o : Outcomes, w : IF sys \in Coloured THEN BOOLEAN ELSE {TRUE}, cfg : cfgs] :
         /\ sys = "egf" => EgfRoom(g.cfg.h, a, g.q)
         /\ sys = "ts" => TsFits(cfg, <<a>>, <<g.q>>)}
GridPeriods(sys, cfg) ==
  UNION {LET gg == GridGames(sys, cfg, a)
         IN  {[sys |-> sys, cfg |-> cfg, a |-> a, gs |-> gs, x |-> 1] :
                gs \in {<<>>} \cup {<<g>> : g \in gg} \cup {<<g, h>> : g \in gg, h \in gg}} : a \in FewCorners(sys)}
GridTeamSet(sys, withEmpty) ==
  LET c == SetToSeq(CornersOf(sys))
  IN  (IF withEmpty THEN {<<>>} ELSE {}) \cup {<<c[1]>>, <<c[3]>>, <<c[2], c[4]>>, <<c[1], c[1]>>, <<c[4], c[5], c[2]>>}
GridTeams(sys, cfg) ==
  {[sys |-> sys, cfg |-> cfg, ta |-> p[1], tb |-> p[2], o |-> o, x |-> 1] :
     p \in {q \in GridTeamSet(sys, FALSE) \X GridTeamSet(sys, FALSE) : sys = "ts" => TsFits(cfg, q[1], q[2])}, o \in Outcomes}
GridMulti(sys, cfg) ==
  LET ts == GridTeamSet(sys, FALSE)
      few == {t \in ts : Len(t) <= 2}
      ok(s) == sys = "ts" => \A i \in 1..Len(s), j \in 1..Len(s) : TsWidth(cfg, s[i], s[j]) \preceq FI(6)
      mk(s, r) == [sys |-> sys, cfg |-> cfg, ts |-> s, ranks |-> r, wt |-> <<>>, x |-> 1]
  IN  {mk(<<t>>, <<1>>) : t \in ts}
      \cup UNION {{mk(s, r) : r \in {<<1, 1>>, <<1, 2>>, <<2, 1>>}} : s \in {s \in ts \X ts : ok(s)}}
      \cup UNION {{mk(s, r) : r \in {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 2, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 1, 1>>}}
                    : s \in {s \in few \X few \X few : ok(s)}}
GridFirst ==
  LET q == FewCorners("dwz")
      g(p, o) == Game(p, o, TRUE, DefaultConfig("dwz"))
      five == {<<p, p, r, r, s>> : p \in q, r \in q, s \in q}
      res == {<<"W", "W", "W", "W", "W">>, <<"L", "L", "L", "L", "L">>, <<"W", "W", "W", "W", "D">>, <<"L", "L", "D", "L", "L">>,
              <<"W", "L", "W", "L", "D">>, <<"D", "D", "D", "D", "D">>, <<"L", "W", "W", "W", "W">>}
  IN  {[sys |-> "dwz", cfg |-> DefaultConfig("dwz"), age |-> a, x |-> 1, gs |-> SubSeq([j \in 1..5 |-> g(t[j], r[j])], 1, n)]
         : a \in {15, 20, 26}, t \in five, r \in res, n \in {4, 5}}
Grid(kind, sys, cfg) ==
  CASE kind = "pair" -> GridPairs(sys, cfg) [] kind = "period" -> GridPeriods(sys, cfg) [] kind \in {"teams", "two"} -> GridTeams(sys, cfg)
    [] kind = "multi" -> GridMulti(sys, cfg) [] kind = "first" -> GridFirst
=============================================================================
