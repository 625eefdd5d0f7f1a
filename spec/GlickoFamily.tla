---------------------------- MODULE GlickoFamily ----------------------------
(***************************************************************************)
(* Glicko, Glicko-2, Sticko and Glicko-Boost.                              *)
(* Ratings: [r, d] (rating, deviation), Glicko-2 also [.., v] (volatility).*)
(* A game g of a period is [q, o, w]: opponent, outcome and (Sticko and    *)
(* Glicko-Boost) whether the player had the first player's advantage.      *)
(***************************************************************************)
EXTENDS Common

GQ == FLn(F10) // F400
G_g(d) == Recip(FSqrt(F1 ++ (((F3 ** Sq(GQ)) ** Sq(d)) // Sq(Pi))))
\* Expected result of p against q when p's side is worth adv points, damped by g
G_E(g, p, q, adv) == Logistic10(g ** ((p.r ++ adv) -- q.r), F400)
G_Expect(p, q, adv) == G_E(G_g(FHypot(p.d, q.d)), p, q, adv)
Side(w, adv) == IF w THEN adv ELSE FNeg(adv)

\* The two sums every period of the family is built from
G_Info(p, gs, adv) ==
  SumOver(LAMBDA g : LET gg == G_g(g.q.d) e == G_E(gg, p, g.q, Side(g.w, adv))
                     IN  (Sq(gg) ** e) ** (F1 -- e), gs)
G_Surplus(p, gs, adv, beta) ==
  SumOver(LAMBDA g : LET gg == G_g(g.q.d) e == G_E(gg, p, g.q, Side(g.w, adv))
                     IN  gg ** ((Points(g.o) -- e) ++ beta), gs)

CI196 == FS("1.96")
G_Interval(p) == <<p.r -- (CI196 ** p.d), p.r ++ (CI196 ** p.d)>>

\* ---- Glicko: cfg = [c] -------------------------------------------------------
Glicko_Pre(c, d) == FMin(FHypot(d, c), F350)
Glicko_Decay(cfg, p) == [r |-> p.r, d |-> Glicko_Pre(cfg.c, p.d)]
Glicko_Period(cfg, p, gs) ==
  IF gs = <<>> THEN Glicko_Decay(cfg, p)
  ELSE LET pre == Recip(Sq(Glicko_Pre(cfg.c, p.d)))
           prec == pre ++ (Sq(GQ) ** G_Info(p, gs, F0))
       IN  [r |-> p.r ++ ((GQ // prec) ** G_Surplus(p, gs, F0, F0)), d |-> FSqrt(Recip(prec))]

\* ---- Sticko: cfg = [h, beta, lambda, gamma, c] ---------------------------------
Sticko_Decay(cfg, p) == [r |-> p.r, d |-> Glicko_Pre(cfg.c, p.d)]
Sticko_Period(cfg, p, gs) ==
  IF gs = <<>> THEN Sticko_Decay(cfg, p)
  ELSE LET n == FI(Len(gs))
           pre == Sq(Glicko_Pre(cfg.c, p.d))
           info == Sq(GQ) ** G_Info(p, gs, cfg.gamma)
           opp == SumOver(LAMBDA g : g.q.r, gs) // n
           pull == (cfg.lambda // F100) ** (opp -- p.r)
       IN  [r |-> (p.r ++ ((GQ // (Recip(pre) ++ info)) ** G_Surplus(p, gs, cfg.gamma, cfg.beta))) ++ pull,
            d |-> FMin(FSqrt(Recip(Recip(pre ++ (cfg.h ** n)) ++ info)), F350)]

\* ---- Glicko-Boost: cfg = [eta, k, b1, b2, a0, a1, a2, a3, a4] --------------------
\* deviation growth over a period
Boost_Variance(cfg, r, d) ==
  LET x == r // F1000
  IN  FExp((((cfg.a0 ++ (cfg.a1 ** d)) ++ ((cfg.a2 ** d) ** x)) ++ (cfg.a3 ** x)) ++ (cfg.a4 ** Sq(x)))
Boost_Grow(cfg, r, d) == FMin(FSqrt(Sq(d) ++ Boost_Variance(cfg, r, d)), F350)
Boost_Decay(cfg, p) == [r |-> p.r, d |-> Boost_Grow(cfg, p.r, p.d)]
Boost_z(p, gs, adv) == G_Surplus(p, gs, adv, F0) // FSqrt(G_Info(p, gs, adv))
\* boosted: the exceptional-performance branch is taken
Boost_PeriodAs(cfg, p, gs, boosted) ==
  LET info == Sq(GQ) ** G_Info(p, gs, cfg.eta)
      post(d) == FSqrt(Recip(Recip(Sq(d)) ++ info))
      z == Boost_z(p, gs, cfg.eta)
      d1 == IF boosted
            THEN post(((F1 ++ ((z -- cfg.k) ** cfg.b1)) ** post(p.d)) ++ cfg.b2)
            ELSE post(p.d)
      dd == FMin(d1, F350)
      r == p.r ++ ((Sq(dd) ** GQ) ** G_Surplus(p, gs, cfg.eta, F0))
  IN  [r |-> r, d |-> Boost_Grow(cfg, r, dd)]
Boost_Boosted(cfg, p, gs) == ~FEq(cfg.k, F0) /\ Succ(Boost_z(p, gs, cfg.eta), cfg.k)
Boost_Period(cfg, p, gs) ==
  IF gs = <<>> THEN Boost_Decay(cfg, p) ELSE Boost_PeriodAs(cfg, p, gs, Boost_Boosted(cfg, p, gs))
\* z so close to k that rounding decides the branch: both are admissible
Boost_Undecided(cfg, p, gs) ==
  gs # <<>> /\ ~FEq(cfg.k, F0) /\ NearT(Boost_z(p, gs, cfg.eta), cfg.k, FS("1e-9"))

\* ---- Glicko-2: cfg = [tau, tol] ---------------------------------------------------
Scale2 == FS("173.7178")
F1500 == FI(1500)
G2_mu(p) == (p.r -- F1500) // Scale2
G2_phi(p) == p.d // Scale2
G2_g(phi) == Recip(FSqrt(F1 ++ ((F3 ** Sq(phi)) // Sq(Pi))))
G2_E(mu, muj, phij) == LogisticE(G2_g(phij) ** (mu -- muj))
G2_Expect(p, q) == G2_E(G2_mu(p), G2_mu(q), FHypot(G2_phi(p), G2_phi(q)))
G2_Decay(p) == [r |-> p.r, d |-> FMin(FHypot(G2_phi(p), p.v) ** Scale2, F350), v |-> p.v]

G2_vinv(p, gs) ==
  SumOver(LAMBDA g : LET gg == G2_g(G2_phi(g.q)) e == G2_E(G2_mu(p), G2_mu(g.q), G2_phi(g.q))
                     IN  (Sq(gg) ** e) ** (F1 -- e), gs)
G2_Surplus(p, gs) ==
  SumOver(LAMBDA g : G2_g(G2_phi(g.q)) ** (Points(g.o) -- G2_E(G2_mu(p), G2_mu(g.q), G2_phi(g.q))), gs)
\* The function whose root is the logarithm of the new squared volatility
G2_f(x, p, delta2, v, tau) ==
  LET phi2 == Sq(G2_phi(p))
      ex == FExp(x)
  IN  ((ex ** (((delta2 -- phi2) -- v) -- ex)) // (F2 ** Sq((phi2 ++ v) ++ ex)))
      -- ((x -- FLn(Sq(p.v))) // Sq(tau))
\* Declarative law of the volatility: the root lies within the convergence tolerance of ln(vol^2)
G2_VolatilityOK(cfg, p, gs, vol) ==
  LET v == Recip(G2_vinv(p, gs))
      delta2 == Sq(v ** G2_Surplus(p, gs))
      x == FLn(Sq(vol))
      slack == (cfg.tol ** FS("1.000001")) ++ FS("1e-9")
  IN  /\ FFinite(vol) /\ F0 \prec vol
      /\ SuccEq(G2_f(x -- slack, p, delta2, v, cfg.tau), F0)
      /\ G2_f(x ++ slack, p, delta2, v, cfg.tau) \preceq F0
\* Rating and deviation follow from the new volatility
G2_PeriodWith(p, gs, vol) ==
  LET vinv == G2_vinv(p, gs)
      phi == FSqrt(Recip(Recip(Sq(G2_phi(p)) ++ Sq(vol)) ++ vinv))
  IN  [r |-> ((G2_mu(p) ++ (Sq(phi) ** G2_Surplus(p, gs))) ** Scale2) ++ F1500,
       d |-> phi ** Scale2, v |-> vol]

\* Glickman's iteration (used when the model itself has to produce a behaviour)
RECURSIVE G2_Lower(_, _, _, _, _, _)
G2_Lower(k, a, p, delta2, v, tau) ==
  LET x == a -- (FI(k) ** tau)
  IN  IF G2_f(x, p, delta2, v, tau) \prec F0 THEN G2_Lower(k + 1, a, p, delta2, v, tau) ELSE x
RECURSIVE G2_Illinois(_, _, _, _, _, _, _, _, _)
G2_Illinois(a, fa, b, fb, p, delta2, v, cfg, fuel) ==
  IF ~Succ(FAbs(b -- a), cfg.tol) \/ fuel = 0 THEN FExp(a // F2)
  ELSE LET c == a ++ (((a -- b) ** fa) // (fb -- fa))
           fc == G2_f(c, p, delta2, v, cfg.tau)
       IN  IF (fc ** fb) \preceq F0
           THEN G2_Illinois(b, fb, c, fc, p, delta2, v, cfg, fuel - 1)
           ELSE G2_Illinois(a, fa // F2, c, fc, p, delta2, v, cfg, fuel - 1)
G2_Volatility(cfg, p, gs) ==
  LET v == Recip(G2_vinv(p, gs))
      delta2 == Sq(v ** G2_Surplus(p, gs))
      phi2 == Sq(G2_phi(p))
      a == FLn(Sq(p.v))
      b == IF Succ(delta2, phi2 ++ v) THEN FLn((delta2 -- phi2) -- v)
           ELSE G2_Lower(1, a, p, delta2, v, cfg.tau)
  IN  G2_Illinois(a, G2_f(a, p, delta2, v, cfg.tau), b, G2_f(b, p, delta2, v, cfg.tau),
                  p, delta2, v, cfg, 200)
G2_Period(cfg, p, gs) ==
  IF gs = <<>> THEN G2_Decay(p) ELSE G2_PeriodWith(p, gs, G2_Volatility(cfg, p, gs))
G2_PeriodOK(cfg, p, gs, out, tol) ==
  IF gs = <<>> THEN NearRatingT(out, G2_Decay(p), tol)
  ELSE /\ G2_VolatilityOK(cfg, p, gs, out.v)
       /\ NearRatingT(out, G2_PeriodWith(p, gs, out.v), tol)
=============================================================================
