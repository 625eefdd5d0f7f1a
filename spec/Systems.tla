------------------------------ MODULE Systems ------------------------------
(***************************************************************************)
(* The public API of the library as one transition relation.               *)
(*                                                                         *)
(* A call is a record [op, sys, via, ...arguments]; Law(call) is the       *)
(* result the specification computes and Conforms(call, res) says whether  *)
(* an observed result is admissible.                                       *)
(***************************************************************************)
EXTENDS EloFamily, Regional, GlickoFamily, WengLin, TrueSkill, Convert

AllSystems   == <<"elo", "fifa", "dwz", "ingo", "egf", "uscf", "glicko", "glicko2", "sticko", "gboost", "wl", "ts">>
Deviating    == {"glicko", "glicko2", "sticko", "gboost", "wl", "ts"}     \* ratings with an uncertainty
GlickoLike   == {"glicko", "glicko2", "sticko", "gboost"}
TeamSystems  == {"wl", "ts"}
Sequential   == {"elo", "fifa", "wl", "ts"}    \* a period is rated game by game
Batch        == {"dwz", "ingo", "egf", "uscf", "glicko", "glicko2", "sticko", "gboost"}   \* ... all at once
PerGameCfg   == {"fifa", "egf"}                \* every game of a period has its own configuration
Coloured     == {"sticko", "gboost"}           \* every game of a period says who had the first move

DefaultConfig(sys) ==
  CASE sys = "elo" -> [k |-> FI(32)]
    [] sys = "fifa" -> [imp |-> F10, ko |-> FALSE, pen |-> FALSE]
    [] sys = "egf" -> [h |-> F0]
    [] sys = "uscf" -> [t |-> FI(14)]
    [] sys = "glicko" -> [c |-> FS("63.2")]
    [] sys = "glicko2" -> [tau |-> Half, tol |-> FS("0.000001")]
    [] sys = "sticko" -> [h |-> F10, beta |-> F0, lambda |-> F2, gamma |-> F0, c |-> F10]
    [] sys = "gboost" -> [eta |-> F30, k |-> FS("1.96"), b1 |-> FS("0.20139"), b2 |-> FS("17.5"),
                          a0 |-> FS("5.83733"), a1 |-> FS("-1.75374e-04"), a2 |-> FS("-7.080124e-05"),
                          a3 |-> FS("0.001733792"), a4 |-> FS("0.00026706")]
    [] sys = "wl" -> [beta |-> FI(25) // FI(6), tol |-> FS("0.000001")]
    [] sys = "ts" -> [dp |-> FS("0.1"), beta |-> (FI(25) // F3) ** Half, tau |-> FI(25) // FI(300)]
    [] OTHER -> [x |-> 0]

\* The same configuration seen from the second player
Mirror(sys, cfg) ==
  CASE sys = "egf" -> [cfg EXCEPT !.h = FNeg(cfg.h)]
    [] sys = "sticko" -> [cfg EXCEPT !.gamma = FNeg(cfg.gamma)]
    [] sys = "gboost" -> [cfg EXCEPT !.eta = FNeg(cfg.eta)]
    [] OTHER -> cfg

Advantage(sys, cfg) == IF sys = "sticko" THEN cfg.gamma ELSE IF sys = "gboost" THEN cfg.eta ELSE F0

\* ---- Expected score of p against q (w: p has the first move) ---------------------------
ExpectOf(sys, cfg, p, q, w) ==
  CASE sys = "elo" -> Elo_Expect(p, q)
    [] sys = "fifa" -> Fifa_Expect(p, q)
    [] sys = "dwz" -> Dwz_Expect(p, q)
    [] sys = "ingo" -> Ingo_Expect(p, q)
    [] sys = "egf" -> Egf_Expect(cfg, p, q)
    [] sys = "uscf" -> Uscf_Expect(p, q)
    [] sys = "glicko2" -> G2_Expect(p, q)
    [] sys \in {"glicko", "sticko", "gboost"} -> G_Expect(p, q, Side(w, Advantage(sys, cfg)))
    [] sys = "wl" -> WL_Expect(cfg, p, q)
    [] sys = "ts" -> TS_Expect(cfg, p, q)

\* ---- One rating period of p --------------------------------------------------------------
PeriodOf(sys, cfg, p, gs) ==
  CASE sys = "elo" -> Elo_Period(cfg, p, gs)
    [] sys = "fifa" -> Fifa_Period(p, gs)
    [] sys = "dwz" -> Dwz_Period(p, gs)
    [] sys = "ingo" -> Ingo_Period(p, gs)
    [] sys = "egf" -> Egf_Period(p, gs)
    [] sys = "uscf" -> Uscf_Period(cfg, p, gs)
    [] sys = "glicko" -> Glicko_Period(cfg, p, gs)
    [] sys = "glicko2" -> G2_Period(cfg, p, gs)
    [] sys = "sticko" -> Sticko_Period(cfg, p, gs)
    [] sys = "gboost" -> Boost_Period(cfg, p, gs)
    [] sys = "wl" -> WL_Period(cfg, p, gs)
    [] sys = "ts" -> TS_Period(cfg, p, gs)

\* A single game, from the perspective of one player
Game(q, o, w, cfg) == [q |-> q, o |-> o, w |-> w, cfg |-> cfg]
OneOf(sys, cfg, p, q, o, w) == PeriodOf(sys, cfg, p, <<Game(q, o, w, cfg)>>)

DecayOf(sys, cfg, p) ==
  CASE sys = "glicko" -> Glicko_Decay(cfg, p)
    [] sys = "glicko2" -> G2_Decay(p)
    [] sys = "sticko" -> Sticko_Decay(cfg, p)
    [] sys = "gboost" -> Boost_Decay(cfg, p)

\* Numeric slack of a system's laws.  Glicko-2 solves for the volatility only up to its
\* configured convergence tolerance; TrueSkill's corrections are differences of tails.
TolOf(sys, cfg) ==
  CASE sys = "glicko2" -> (FI(4) ** cfg.tol) ++ Tol
    [] sys = "ts" -> FS("1e-6")
    [] OTHER -> Tol
MultiTol(sys) == IF sys = "ts" THEN FS("1e-6") ELSE Tol

\* ---- The API --------------------------------------------------------------------------------
\* Calls through the traits use one configuration and the first move for every game.
Games(c) ==
  IF c.via # "trait" THEN c.gs
  ELSE MapSeq(LAMBDA g : [g EXCEPT !.cfg = c.cfg, !.w = TRUE], c.gs)

Ok(x) == [st |-> "ok", out |-> x]
Err(x) == [st |-> "err", out |-> x]
HasEmptyTeam(ts) == \E i \in 1..Len(ts) : ts[i] = <<>>
WeightsOf(c) == IF c.wt = <<>> THEN <<>> ELSE c.wt[1]
WeightProblem(c) ==      \* weights are looked at only when there is something to weigh
  IF c.wt = <<>> \/ c.ts = <<>> \/ HasEmptyTeam(c.ts) THEN [kind |-> "none", team |-> 0, player |-> 0]
  ELSE TS_WeightError(c.ts, c.wt[1])
Opt(s, default) == IF s = <<>> THEN default ELSE s[1]

JsonKeys(sys) ==
  CASE sys \in {"elo", "fifa", "egf"} -> <<"rating">>
    [] sys = "dwz" -> <<"age", "index", "rating">>
    [] sys = "ingo" -> <<"age", "rating">>
    [] sys = "uscf" -> <<"games", "rating">>
    [] sys \in {"glicko", "sticko", "gboost"} -> <<"deviation", "rating">>
    [] sys = "glicko2" -> <<"deviation", "rating", "volatility">>
    [] sys \in {"wl", "ts"} -> <<"rating", "uncertainty">>
JsonCfgKeys(sys) ==
  CASE sys = "elo" -> <<"k">>
    [] sys = "fifa" -> <<"importance", "knockout", "penalties">>
    [] sys = "egf" -> <<"handicap">>
    [] sys = "uscf" -> <<"t">>
    [] sys = "glicko" -> <<"c">>
    [] sys = "glicko2" -> <<"convergence_tolerance", "tau">>
    [] sys = "sticko" -> <<"beta", "c", "gamma", "h", "lambda">>
    [] sys = "gboost" -> <<"alpha", "b", "eta", "k">>
    [] sys = "wl" -> <<"beta", "uncertainty_tolerance">>
    [] sys = "ts" -> <<"beta", "draw_probability", "dynamics_factor">>

Law(c) ==
  CASE c.op = "rate" ->
         Ok(IF c.sys = "wl" THEN LET t == WL_Teams(c.cfg, <<c.a>>, <<c.b>>, c.o) IN <<t[1][1], t[2][1]>>
            ELSE IF c.sys = "ts" THEN LET t == TS_Teams(c.cfg, <<c.a>>, <<c.b>>, c.o) IN <<t[1][1], t[2][1]>>
            ELSE IF c.sys = "egf"
                 THEN <<OneOf("egf", c.cfg, c.a, c.b, c.o, TRUE), OneOf("egf", Mirror("egf", c.cfg), c.b, c.a, Inv(c.o), FALSE)>>
            ELSE <<OneOf(c.sys, c.cfg, c.a, c.b, c.o, TRUE), OneOf(c.sys, c.cfg, c.b, c.a, Inv(c.o), FALSE)>>)
    [] c.op = "exp" ->
         Ok(<<ExpectOf(c.sys, c.cfg, c.a, c.b, TRUE), ExpectOf(c.sys, Mirror(c.sys, c.cfg), c.b, c.a, TRUE)>>)
    [] c.op = "period" -> Ok(PeriodOf(c.sys, c.cfg, c.a, Games(c)))
    [] c.op = "expp" -> Ok(MapSeq(LAMBDA g : ExpectOf(c.sys, IF c.sys \in PerGameCfg THEN g.cfg ELSE c.cfg, c.a, g.q, g.w), Games(c)))
    [] c.op = "decay" -> Ok(DecayOf(c.sys, c.cfg, c.a))
    [] c.op = "ci" -> Ok(G_Interval(c.a))
    [] c.op = "rank" -> Ok(TS_Rank(c.a))
    [] c.op = "teams" -> Ok(IF c.sys = "wl" THEN WL_Teams(c.cfg, c.ta, c.tb, c.o) ELSE TS_Teams(c.cfg, c.ta, c.tb, c.o))
    [] c.op = "expteams" ->
         Ok(IF c.sys = "wl" THEN <<WL_Expect2(c.cfg, c.ta, c.tb), WL_Expect2(c.cfg, c.tb, c.ta)>>
            ELSE <<TS_Expect2(c.cfg, c.ta, c.tb), TS_Expect2(c.cfg, c.tb, c.ta)>>)
    [] c.op = "multi" ->
         IF c.sys = "wl" THEN Ok(WL_Multi(c.cfg, c.ts, c.ranks))
         ELSE LET e == WeightProblem(c)
              IN  IF e.kind # "none" THEN Err(e) ELSE Ok(TS_Multi(c.cfg, c.ts, c.ranks, WeightsOf(c)))
    [] c.op = "expmulti" -> Ok(IF c.sys = "wl" THEN WL_ExpectMulti(c.cfg, c.ts) ELSE TS_ExpectMulti(c.cfg, c.ts))
    [] c.op = "quality" -> Ok(TS_Quality(c.cfg, c.a, c.b))
    [] c.op = "qualityp" -> Ok(MapSeq(LAMBDA g : TS_Quality(c.cfg, c.a, g.q), c.gs))
    [] c.op = "qualityteams" -> Ok(TS_Quality2(c.cfg, c.ta, c.tb))
    [] c.op = "qualitymulti" ->
         LET e == WeightProblem(c) IN IF e.kind # "none" THEN Err(e) ELSE Ok(TS_QualityMulti(c.cfg, c.ts, WeightsOf(c)))
    [] c.op = "first" ->
         LET e == Dwz_FirstError(c.gs)
         IN  IF e # "none" THEN Err([kind |-> e]) ELSE Ok(CHOOSE x \in Dwz_First(c.age, c.gs) : TRUE)
    [] c.op = "conv" -> Ok(Convert(c.from, c.to, c.a))
    [] c.op = "new" -> Ok(Initial(c.sys, c.age))
    [] c.op = "default" -> Ok(Initial(c.sys, 26))
    [] c.op = "ctor" ->
         LET i == Initial(c.sys, 26)
             x == [i EXCEPT !.r = Opt(c.r, i.r)]
         IN  Ok(IF c.sys \in Deviating THEN [x EXCEPT !.d = Opt(c.d, i.d)] ELSE x)
    [] c.op = "view" -> Ok([r |-> c.a.r, d |-> IF c.sys \in Deviating THEN <<c.a.d>> ELSE <<>>])
    [] c.op = "defcfg" -> Ok(<<DefaultConfig(c.sys), DefaultConfig(c.sys)>>)
    [] c.op = "from1" -> Ok(IF c.sys = "ingo" THEN [r |-> c.r, a |-> 26] ELSE [r |-> c.r])
    [] c.op = "from2" ->
         Ok(CASE c.sys = "dwz" -> [r |-> c.r, n |-> c.n, a |-> 26]
              [] c.sys = "ingo" -> [r |-> c.r, a |-> c.n]
              [] c.sys = "uscf" -> [r |-> c.r, n |-> c.n]
              [] OTHER -> [r |-> c.r, d |-> c.d])
    [] c.op = "from3" ->
         Ok(IF c.sys = "dwz" THEN [r |-> c.r, n |-> c.n, a |-> c.k] ELSE [r |-> c.r, d |-> c.d, v |-> c.v])
    [] c.op = "serde" -> Ok([back |-> c.a, again |-> c.a, keys |-> JsonKeys(c.sys)])
    [] c.op = "serdecfg" -> Ok([back |-> c.cfg, again |-> c.cfg, keys |-> JsonCfgKeys(c.sys)])
    [] c.op = "serdeoutcome" -> Ok(c.o)
    [] c.op = "serdemto" -> Ok(c.x)
    [] c.op = "serdebig" -> Ok(<<c.hi, c.lo>>)
    [] c.op = "points" -> Ok(Points(c.o))
    [] c.op = "mto" -> Ok([x |-> c.x, y |-> c.y, lt |-> c.x < c.y, eq |-> c.x = c.y])

\* ---- Conformance ----------------------------------------------------------------------------
\* Is x an admissible rating of p after a period?
PeriodOK(sys, cfg, p, gs, x) ==
  CASE sys = "glicko2" -> G2_PeriodOK(cfg, p, gs, x, Tol)
    [] sys = "gboost" ->
         IF Boost_Undecided(cfg, p, gs)
         THEN \E b \in BOOLEAN : NearRating(x, Boost_PeriodAs(cfg, p, gs, b))
         ELSE NearRating(x, Boost_Period(cfg, p, gs))
    [] OTHER -> NearRatingT(x, PeriodOf(sys, cfg, p, gs), TolOf(sys, cfg))

CfgFloats == {"k", "imp", "h", "t", "c", "tau", "tol", "beta", "lambda", "gamma", "eta", "b1", "b2", "a0", "a1", "a2", "a3", "a4", "dp"}
NearConfig(x, y) ==
  /\ DOMAIN x = DOMAIN y
  /\ \A k \in DOMAIN x : IF k \in CfgFloats THEN FNear(x[k], y[k], Eps12) ELSE x[k] = y[k]

Conforms(c, res) ==
  IF c.op \in {"rate", "period"} /\ res.st # "ok" THEN FALSE
  ELSE CASE c.op = "rate" /\ c.sys \in {"glicko2", "gboost"} ->
              /\ PeriodOK(c.sys, c.cfg, c.a, <<Game(c.b, c.o, TRUE, c.cfg)>>, res.out[1])
              /\ PeriodOK(c.sys, c.cfg, c.b, <<Game(c.a, Inv(c.o), FALSE, c.cfg)>>, res.out[2])
         [] c.op = "period" -> PeriodOK(c.sys, c.cfg, c.a, Games(c), res.out)
         [] c.op = "first" ->
              LET e == Dwz_FirstError(c.gs)
              IN  IF e # "none" THEN res = Err([kind |-> e])
                  ELSE res.st = "ok" /\ \E x \in Dwz_First(c.age, c.gs) : NearRating(res.out, x)
         [] OTHER ->
              LET want == Law(c)
              IN  /\ res.st = want.st
                  /\ IF want.st # "ok" THEN res.out = want.out
                     ELSE CASE c.op = "rate" -> NearTeamT(res.out, want.out, TolOf(c.sys, c.cfg))
                            [] c.op \in {"exp", "expp", "expteams", "expmulti"} ->
                                 NearSeqT(res.out, want.out, IF c.sys = "ts" THEN FS("5e-7") ELSE Tol)
                            [] c.op \in {"qualityp", "ci"} -> NearSeq(res.out, want.out)
                            [] c.op \in {"decay", "conv", "new", "default", "ctor", "from1", "from2", "from3"} ->
                                 NearRating(res.out, want.out)
                            [] c.op \in {"rank", "quality", "qualityteams", "qualitymulti", "points"} -> Near(res.out, want.out)
                            [] c.op = "teams" -> NearTeamsT(res.out, want.out, TolOf(c.sys, c.cfg))
                            [] c.op = "multi" -> NearTeamsT(res.out, want.out, MultiTol(c.sys))
                            [] c.op = "defcfg" -> NearConfig(res.out[1], want.out[1]) /\ NearConfig(res.out[2], want.out[2])
                            [] OTHER -> res.out = want.out
=============================================================================
