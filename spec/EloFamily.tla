----------------------------- MODULE EloFamily -----------------------------
(***************************************************************************)
(* Elo and FIFA (World Football) ratings.  A rating is [r].                *)
(* X_One(cfg, p, q, o) is the rating of p after one game against q with    *)
(* outcome o seen from p.                                                  *)
(***************************************************************************)
EXTENDS Common

\* ---- Elo: cfg = [k] -----------------------------------------------------
Elo_Expect(p, q) == Logistic10(p.r -- q.r, F400)
Elo_One(cfg, p, q, o) == [r |-> p.r ++ (cfg.k ** (Points(o) -- Elo_Expect(p, q)))]
\* The period is rated game by game: the player's rating moves between games, opponents' do not.
Elo_Period(cfg, p, gs) == FoldLeft(LAMBDA x, g : Elo_One(cfg, x, g.q, g.o), p, gs)

\* ---- FIFA: cfg = [imp, ko, pen] -------------------------------------------
F075 == FS("0.75")
Fifa_Expect(p, q) == Logistic10(p.r -- q.r, F600)
\* Winning a penalty shootout is worth 0.75, losing it 0.5 (a draw after regular time).
Fifa_Points(cfg, o) == IF cfg.pen THEN (IF o = "W" THEN F075 ELSE Half) ELSE Points(o)
Fifa_One(cfg, p, q, o) ==
  LET new == p.r ++ (cfg.imp ** (Fifa_Points(cfg, o) -- Fifa_Expect(p, q)))
  IN  [r |-> IF cfg.ko /\ new \prec p.r THEN p.r ELSE new]   \* no losses in knock-out rounds
\* Every game of a period carries its own config.
Fifa_Period(p, gs) == FoldLeft(LAMBDA x, g : Fifa_One(g.cfg, x, g.q, g.o), p, gs)
=============================================================================
