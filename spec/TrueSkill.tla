----------------------------- MODULE TrueSkill -----------------------------
(***************************************************************************)
(* TrueSkill.  Rating [r, d] (mean, uncertainty); cfg = [dp, beta, tau]    *)
(* (draw probability, beta, dynamics factor).                              *)
(* One-on-one games and two-team games use the closed-form update, games   *)
(* of several teams the factor-graph schedule.                             *)
(***************************************************************************)
EXTENDS Common

\* ---- Gaussian tail functions (rational approximation of erfc) ------------------
Erfc_Coeff == << FS("-1.26551223"), FS("1.00002368"), FS("0.37409196"), FS("0.09678418"),
                 FS("-0.18628806"), FS("0.27886807"), FS("-1.13520398"), FS("1.48851587"),
                 FS("-0.82215223"), FS("0.17087277") >>
RECURSIVE Horner(_, _, _)
Horner(cs, t, i) == IF i = Len(cs) THEN cs[i] ELSE cs[i] ++ (t ** Horner(cs, t, i + 1))
Erfc(x) ==
  LET z == FAbs(x)
      t == Recip(F1 ++ (z // F2))
      r == t ** FExp(Horner(Erfc_Coeff, t, 1) -- Sq(z))
  IN  IF x \prec F0 THEN F2 -- r ELSE r
TwoOverSqrtPi == F2 // FSqrt(Pi)
InvErfc(y) ==
  IF SuccEq(y, F2) THEN FI(-100)
  ELSE IF y \preceq F0 THEN FI(100)
  ELSE LET low == y \prec F1
           yy == IF low THEN y ELSE F2 -- y
           t == FSqrt(FI(-2) ** FLn(yy // F2))
           x0 == (F1 // Sqrt2) ** (t -- ((FS("2.30753") ++ (t ** FS("0.27061")))
                                         // (F1 ++ (t ** (FS("0.99229") ++ (t ** FS("0.04481")))))))
           step(x) == LET err == Erfc(x) -- yy
                      IN  x ++ (err // ((TwoOverSqrtPi ** FExp(FNeg(Sq(x)))) -- (x ** err)))
           x2 == LET x1 == step(x0) IN step(x1)
       IN  IF low THEN x2 ELSE FNeg(x2)
Cdf(x) == Half ** Erfc(FNeg(x) // Sqrt2)
Pdf(x) == FExp(FNeg(Sq(x) // F2)) // FSqrt(F2 ** Pi)

Tiny == FS("2.222758749e-162")
\* Mean and variance corrections; t = normalised difference, e = normalised draw margin
V_Win(t, e) ==
  LET norm == Cdf(t -- e) IN IF norm \prec Tiny THEN e -- t ELSE Pdf(t -- e) // norm
W_Win(t, e) ==
  IF Cdf(t -- e) \prec Tiny THEN (IF t \prec F0 THEN F1 ELSE F0)
  ELSE LET v == V_Win(t, e) IN Clamp(v ** ((v ++ t) -- e), F0, F1)
DrawNorm(t, e) == LET a == FAbs(t) IN Cdf(e -- a) -- Cdf(FNeg(e) -- a)
V_Draw(t, e) ==
  LET a == FAbs(t)
      norm == DrawNorm(t, e)
      x == Pdf(FNeg(e) -- a) -- Pdf(e -- a)
  IN  IF norm \prec Tiny THEN (IF t \prec F0 THEN FNeg(t) -- e ELSE FNeg(t) ++ e)
      ELSE IF t \prec F0 THEN FNeg(x // norm) ELSE x // norm
W_Draw(t, e) ==
  LET a == FAbs(t)
      norm == DrawNorm(t, e)
      v == V_Draw(t, e)
      lo == FNeg(e) -- a
      hi == e -- a
  IN  IF norm \prec Tiny THEN F1
      ELSE Clamp(Sq(v) ++ (((hi ** Pdf(hi)) -- (lo ** Pdf(lo))) // norm), F0, F1)

TS_Margin(cfg, players) ==
  ((FNeg(Sqrt2) ** InvErfc(F2 ** ((cfg.dp ++ F1) // F2))) ** FSqrt(players)) ** cfg.beta

\* ---- Two sides -------------------------------------------------------------------
TS_Mu(t) == SumOver(LAMBDA p : p.r, t)
TS_Var(t) == SumOver(LAMBDA p : Sq(p.d), t)
TS_c(cfg, t1, t2) == FSqrt((FI(Len(t1) + Len(t2)) ** Sq(cfg.beta)) ++ (TS_Var(t1) ++ TS_Var(t2)))
TS_Expect2(cfg, t1, t2) == Cdf((TS_Mu(t1) -- TS_Mu(t2)) // TS_c(cfg, t1, t2))
TS_Expect(cfg, p, q) == TS_Expect2(cfg, <<p>>, <<q>>)
TS_Teams(cfg, t1, t2, o) ==
  IF t1 = <<>> \/ t2 = <<>> THEN <<t1, t2>>
  ELSE LET c == TS_c(cfg, t1, t2)
           e == TS_Margin(cfg, FI(Len(t1) + Len(t2))) // c
           diff == TS_Mu(t1) -- TS_Mu(t2)
           t == (IF o = "L" THEN FNeg(diff) ELSE diff) // c        \* winner minus loser
           v == IF o = "D" THEN V_Draw(t, e) ELSE V_Win(t, e)
           w == IF o = "D" THEN W_Draw(t, e) ELSE W_Win(t, e)
           upd(p, sign) ==
             LET var == Sq(p.d) ++ Sq(cfg.tau)
             IN  [r |-> p.r ++ ((sign ** (var // c)) ** v),
                  d |-> FSqrt(var ** (F1 -- (w ** (var // Sq(c)))))]
           s1 == IF o = "L" THEN FI(-1) ELSE F1
       IN  <<MapSeq(LAMBDA p : upd(p, s1), t1), MapSeq(LAMBDA p : upd(p, FNeg(s1)), t2)>>
TS_One(cfg, p, q, o) == TS_Teams(cfg, <<p>>, <<q>>, o)[1][1]
TS_Period(cfg, p, gs) == FoldLeft(LAMBDA x, g : TS_One(cfg, x, g.q, g.o), p, gs)
TS_Rank(p) == p.r -- (F3 ** p.d)

TS_ExpectMulti(cfg, ts) ==
  LET n == Len(ts)
      players == FI(FoldLeft(LAMBDA a, t : a + Len(t), 0, ts))
      win(i, j) == Cdf((TS_Mu(ts[i]) -- TS_Mu(ts[j]))
                       // FSqrt((players ** Sq(cfg.beta)) ++ (TS_Var(ts[i]) ++ TS_Var(ts[j]))))
      row == [i \in 1..n |-> SumOver(LAMBDA j : IF i = j THEN F0 ELSE win(i, j), [k \in 1..n |-> k])]
      all == FSum(row)
  IN  IF n = 1 THEN <<F1>> ELSE [i \in 1..n |-> row[i] // all]

\* ---- Match quality -----------------------------------------------------------------
TS_Quality2(cfg, t1, t2) ==
  LET b2 == FI(Len(t1) + Len(t2)) ** Sq(cfg.beta)
      all == b2 ++ (TS_Var(t1) ++ TS_Var(t2))
  IN  FSqrt(b2 // all) ** FExp(FNeg(Sq(TS_Mu(t1) -- TS_Mu(t2))) // (F2 ** all))
TS_Quality(cfg, p, q) == TS_Quality2(cfg, <<p>>, <<q>>)

\* A symmetric tridiagonal system with diagonal d[x] and off-diagonal -e[x] (between x and x+1)
\* eliminated from the top: the pivots, and the right-hand side b on the way
Eliminate(d, e, b) ==
  FoldLeft(LAMBDA acc, x :
             LET l == FNeg(e[x - 1]) // acc.piv[x - 1]
             IN  Force([piv |-> Append(acc.piv, d[x] -- (l ** FNeg(e[x - 1]))), rhs |-> Append(acc.rhs, b[x] -- (l ** acc.rhs[x - 1]))]),
           [piv |-> <<d[1]>>, rhs |-> <<b[1]>>], [k \in 1..(Len(d) - 1) |-> k + 1])
TS_Weights(ts, w) == IF w = <<>> THEN [i \in 1..Len(ts) |-> [j \in 1..Len(ts[i]) |-> F1]] ELSE w
TS_QualityMulti(cfg, ts, w0) ==
  IF Len(ts) <= 1 \/ \E i \in 1..Len(ts) : ts[i] = <<>> THEN F0
  ELSE LET w == TS_Weights(ts, w0)
           n == Len(ts) - 1
           w2(i) == FSum([j \in 1..Len(ts[i]) |-> Sq(w[i][j])])
           wv(i) == FSum([j \in 1..Len(ts[i]) |-> Sq(w[i][j]) ** Sq(ts[i][j].d)])
           wm(i) == FSum([j \in 1..Len(ts[i]) |-> w[i][j] ** ts[i][j].r])
           b == Force([x \in 1..n |-> wm(x) -- wm(x + 1)])
           \* consecutive teams compared: tridiagonal matrices built from per-team sums
           chain(f(_)) == LET v == Force([i \in 1..(n + 1) |-> f(i)])
                          IN  Eliminate(Force([x \in 1..n |-> v[x] ++ v[x + 1]]), Force([x \in 1..n |-> v[x + 1]]), b)
           ata == chain(LAMBDA i : Sq(cfg.beta) ** w2(i))
           mid == chain(LAMBDA i : (Sq(cfg.beta) ** w2(i)) ++ wv(i))
           quad == FSum([x \in 1..n |-> Sq(mid.rhs[x]) // mid.piv[x]])             \* b' mid^-1 b
           ratio == FoldLeft(LAMBDA acc, x : acc ** (ata.piv[x] // mid.piv[x]), F1, [x \in 1..n |-> x])
       IN  FExp(FS("-0.5") ** quad) ** FSqrt(ratio)

\* ---- Several teams: the factor graph -------------------------------------------------
\* Gaussians as [pi, tau] = precision and precision times mean
GMul(a, b) == [pi |-> a.pi ++ b.pi, tau |-> a.tau ++ b.tau]
GDiv(a, b) == [pi |-> a.pi -- b.pi, tau |-> a.tau -- b.tau]
GUnit == [pi |-> F0, tau |-> F0]
GMean(a) == IF FEq(a.pi, F0) THEN F0 ELSE a.tau // a.pi
\* c1*a + c2*b as a message; a flat argument makes the result flat
GVarTerm(c, a) == Sq(c) // a.pi
GFrom(mean, var) == LET pi == Recip(var) IN [pi |-> pi, tau |-> pi ** mean]
GLin(c1, a, c2, b) ==
  IF FEq(a.pi, F0) \/ FEq(b.pi, F0) THEN GUnit
  ELSE GFrom((c1 ** GMean(a)) ++ (c2 ** GMean(b)), GVarTerm(c1, a) ++ GVarTerm(c2, b))
GDelta(a, b) ==
  LET dp == FAbs(a.pi -- b.pi)
  IN  IF ~FFinite(dp) /\ ~FIsNaN(dp) THEN F0 ELSE FMax(FAbs(a.tau -- b.tau), FSqrt(dp))

MinWeight == FS("0.0001")
MinDelta == FS("0.0001")
MaxRounds == 10
MinKept == FS("0.000001")       \* share of its variance a truncated difference keeps at least
FNegOne == FI(-1)

\* Stable order of the teams by rank
RankOrder(ranks) ==
  SortSeq([i \in 1..Len(ranks) |-> i],
          LAMBDA i, j : ranks[i] < ranks[j] \/ (ranks[i] = ranks[j] /\ i < j))

\* State of the inner schedule:
\*   L[x] message of difference x to team x, R[x] to team x+1, M[x] message of the truncation on
\*   difference x, S[x] message of the sum on difference x.
TS_DownUp(x, st, prior, tie, marg) ==
  LET n == Len(prior) - 1
      left == IF x > 1 THEN GMul(prior[x], st.R[x - 1]) ELSE prior[x]
      right == IF x < n THEN GMul(prior[x + 1], st.L[x + 1]) ELSE prior[x + 1]
      s == GLin(F1, left, FNegOne, right)
      sd == FSqrt(s.pi)
      t == s.tau // sd
      e == marg[x] ** sd
      v == IF tie[x] THEN V_Draw(t, e) ELSE V_Win(t, e)
      w == IF tie[x] THEN W_Draw(t, e) ELSE W_Win(t, e)
      den == FMax(F1 -- w, MinKept)
      val == [pi |-> s.pi // den, tau |-> (s.tau ++ (sd ** v)) // den]
      old == GMul(s, st.M[x])
  IN  Force([st EXCEPT !.M[x] = GDiv(val, s), !.delta = FMax(st.delta, GDelta(old, val))])
TS_ToRight(x, st, prior) ==     \* team x+1 = team x - difference
  LET left == IF x > 1 THEN GMul(prior[x], st.R[x - 1]) ELSE prior[x]
  IN  Force([st EXCEPT !.R[x] = GLin(F1, left, FNegOne, st.M[x])])
TS_ToLeft(x, st, prior) ==      \* team x = team x+1 + difference
  LET right == IF x < Len(prior) - 1 THEN GMul(prior[x + 1], st.L[x + 1]) ELSE prior[x + 1]
  IN  Force([st EXCEPT !.L[x] = GLin(F1, right, F1, st.M[x])])
TS_Sweep(st0, prior, tie, marg) ==
  LET n == Len(prior) - 1
      fresh == [st0 EXCEPT !.delta = F0]
      right == FoldLeft(LAMBDA st, x : TS_ToRight(x, TS_DownUp(x, st, prior, tie, marg), prior),
                        fresh, [x \in 1..(n - 1) |-> x])
  IN  IF n = 1 THEN TS_DownUp(1, fresh, prior, tie, marg)
      ELSE FoldLeft(LAMBDA st, x : TS_ToLeft(x, TS_DownUp(x, st, prior, tie, marg), prior),
                    right, [k \in 1..(n - 1) |-> n + 1 - k])
RECURSIVE TS_Rounds(_, _, _, _, _)
TS_Rounds(k, st, prior, tie, marg) ==
  IF k = 0 THEN st
  ELSE LET s == TS_Sweep(st, prior, tie, marg)
       IN  IF s.delta \preceq MinDelta THEN s ELSE TS_Rounds(k - 1, s, prior, tie, marg)

TS_MultiSorted(cfg, ts, ranks, w) ==       \* teams already in rank order, at least two
  LET n == Len(ts) - 1
      var(p) == Sq(p.d) ++ Sq(cfg.tau)
      pvar(p) == var(p) ++ Sq(cfg.beta)
      wt == Force([i \in 1..Len(ts) |-> [j \in 1..Len(ts[i]) |-> FMax(w[i][j], MinWeight)]])
      mean == Force([i \in 1..Len(ts) |-> FSum([j \in 1..Len(ts[i]) |-> wt[i][j] ** ts[i][j].r])])
      tvar == Force([i \in 1..Len(ts) |-> FSum([j \in 1..Len(ts[i]) |-> Sq(wt[i][j]) ** pvar(ts[i][j])])])
      prior == Force([i \in 1..Len(ts) |-> GFrom(mean[i], tvar[i])])
      tie == Force([x \in 1..n |-> ranks[x] = ranks[x + 1]])
      marg == Force([x \in 1..n |-> TS_Margin(cfg, FI(Len(ts[x]) + Len(ts[x + 1])))])
      units == Force([x \in 1..n |-> GUnit])
      st == TS_Rounds(MaxRounds, [L |-> units, R |-> units, M |-> units, delta |-> F0], prior, tie, marg)
      fin == TS_ToRight(n, TS_ToLeft(1, st, prior), prior)
      \* what the match says about team i
      said(i) == LET a == IF i <= n THEN fin.L[i] ELSE GUnit
                     b == IF i > 1 THEN fin.R[i - 1] ELSE GUnit
                 IN  GMul(a, b)
      player(i, j, g) ==
        LET p == ts[i][j]
            wj == wt[i][j]
            restMean == mean[i] -- (wj ** p.r)
            restVar == FSum([k \in 1..Len(ts[i]) |-> IF k = j THEN F0 ELSE Sq(wt[i][k]) ** pvar(ts[i][k])])
            \* message to the player's performance
            m == IF FEq(g.pi, F0) THEN GUnit
                 ELSE GFrom((GMean(g) -- restMean) // wj, (Recip(g.pi) ++ restVar) // Sq(wj))
            a == Recip(F1 ++ (Sq(cfg.beta) ** m.pi))
            pi0 == Recip(var(p))
            pi == pi0 ++ (a ** m.pi)
            tau == (pi0 ** p.r) ++ (a ** m.tau)
        IN  [r |-> tau // pi, d |-> FSqrt(Recip(pi))]
  IN  [i \in 1..Len(ts) |-> LET g == said(i) IN [j \in 1..Len(ts[i]) |-> player(i, j, g)]]

\* Weight validation: what a call with explicit weights must report
TS_WeightError(ts, w) ==
  IF Len(w) # Len(ts) THEN [kind |-> "TeamAmount", team |-> 0, player |-> 0]
  ELSE LET bad(i) == Len(w[i]) # Len(ts[i]) \/ \E j \in 1..Len(w[i]) : w[i][j] \prec F0
           first == CHOOSE i \in 1..Len(w) : bad(i) /\ \A k \in 1..(i - 1) : ~bad(k)
           neg(i) == CHOOSE j \in 1..Len(w[i]) : w[i][j] \prec F0 /\ \A k \in 1..(j - 1) : ~(w[i][k] \prec F0)
       IN  IF ~\E i \in 1..Len(w) : bad(i) THEN [kind |-> "none", team |-> 0, player |-> 0]
           ELSE IF Len(w[first]) # Len(ts[first])
                THEN [kind |-> "PlayerAmount", team |-> first - 1, player |-> 0]
                ELSE [kind |-> "Weight", team |-> first - 1, player |-> neg(first) - 1]

TS_Multi(cfg, ts, ranks, w0) ==
  IF Len(ts) <= 1 \/ \E i \in 1..Len(ts) : ts[i] = <<>> THEN ts
  ELSE LET ord == RankOrder(ranks)
           w == TS_Weights(ts, w0)
           sorted == Force(TS_MultiSorted(cfg, Force([k \in 1..Len(ts) |-> ts[ord[k]]]),
                                    Force([k \in 1..Len(ts) |-> ranks[ord[k]]]),
                                    Force([k \in 1..Len(ts) |-> w[ord[k]]])))
           pos(i) == CHOOSE k \in 1..Len(ts) : ord[k] = i
       IN  [i \in 1..Len(ts) |-> sorted[pos(i)]]
=============================================================================
