------------------------------ MODULE WengLin ------------------------------
(***************************************************************************)
(* Weng-Lin (Bayesian approximation, Bradley-Terry full pair).             *)
(* Rating [r, d] (rating, uncertainty); cfg = [beta, tol].                 *)
(***************************************************************************)
EXTENDS Common

TeamMu(t) == SumOver(LAMBDA p : p.r, t)
TeamVar(t) == SumOver(LAMBDA p : Sq(p.d), t)

WL_c(cfg, var1, var2) == FSqrt((F2 ** Sq(cfg.beta)) ++ (var1 ++ var2))
WL_Expect2(cfg, t1, t2) ==
  LogisticE((TeamMu(t1) -- TeamMu(t2)) // WL_c(cfg, TeamVar(t1), TeamVar(t2)))
WL_Expect(cfg, p, q) == WL_Expect2(cfg, <<p>>, <<q>>)

\* softmax over team strengths (shifted by the maximum, which cancels)
WL_ExpectMulti(cfg, ts) ==
  LET c == FSqrt((F2 ** Sq(cfg.beta)) ++ SumOver(TeamVar, ts))
      mus == MapSeq(TeamMu, ts)
      top == FoldLeft(LAMBDA m, x : FMax(m, x), mus[1], mus)
      es == MapSeq(LAMBDA m : FExp((m -- top) // c), mus)
      all == FSum(es)
  IN  IF ts = <<>> THEN <<>> ELSE MapSeq(LAMBDA e : e // all, es)

\* Team i against all other teams: each pair is a two-team match decided by the ranks
WL_Score(ri, rq) == IF ri < rq THEN F1 ELSE IF ri = rq THEN Half ELSE F0
WL_Multi(cfg, ts, ranks) ==
  IF \E i \in 1..Len(ts) : ts[i] = <<>> THEN ts
  ELSE LET mu == MapSeq(TeamMu, ts)
           var == MapSeq(TeamVar, ts)
           others(i) == SelectSeq([q \in 1..Len(ts) |-> q], LAMBDA q : q # i)
           pair(i, q) ==
             LET c == WL_c(cfg, var[i], var[q])
                 p == LogisticE((mu[i] -- mu[q]) // c)
             IN  [omega |-> (var[i] // c) ** (WL_Score(ranks[i], ranks[q]) -- p),
                  delta |-> ((((FSqrt(var[i]) // c) ** var[i]) // Sq(c)) ** p) ** (F1 -- p)]
           \* LET-bound functions so that each pair is evaluated once
           pairs == [i \in 1..Len(ts) |-> [q \in 1..Len(ts) |-> IF q = i THEN 0 ELSE pair(i, q)]]
           omega(i) == SumOver(LAMBDA q : pairs[i][q].omega, others(i))
           delta(i) == SumOver(LAMBDA q : pairs[i][q].delta, others(i))
       IN  [i \in 1..Len(ts) |->
              LET om == omega(i) de == delta(i)
              IN  [j \in 1..Len(ts[i]) |->
                     LET p == ts[i][j]
                         share == Sq(p.d) // var[i]
                     IN  [r |-> p.r ++ (share ** om),
                          d |-> FSqrt(Sq(p.d) ** FMax(F1 -- (share ** de), cfg.tol))]]]
WL_RanksOf(o) == CASE o = "W" -> <<1, 2>> [] o = "D" -> <<1, 1>> [] o = "L" -> <<2, 1>>
WL_Teams(cfg, t1, t2, o) == WL_Multi(cfg, <<t1, t2>>, WL_RanksOf(o))
WL_One(cfg, p, q, o) == WL_Teams(cfg, <<p>>, <<q>>, o)[1][1]
WL_Period(cfg, p, gs) == FoldLeft(LAMBDA x, g : WL_One(cfg, x, g.q, g.o), p, gs)
=============================================================================
