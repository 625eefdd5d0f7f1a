------------------------------ MODULE Regional ------------------------------
(***************************************************************************)
(* The national/regional systems DWZ and Ingo (German chess), EGF          *)
(* (European Go) and USCF (US chess).                                      *)
(***************************************************************************)
EXTENDS Common

\* ---- DWZ: rating [r, n, a] = rating, index (tournaments entered), age -----
F5 == FI(5)  F15 == FI(15)  F20 == FI(20)  F30 == FI(30)  F150 == FI(150)  F1300 == FI(1300)  F2000 == FI(2000)
Dwz_Expect(p, q) == Logistic10(p.r -- q.r, F400)
Dwz_J(age) == IF age <= 20 THEN F5 ELSE IF age <= 25 THEN F10 ELSE F15
\* Development coefficient
Dwz_E(p, pts, exp) ==
  LET e0 == Sq(Sq(p.r // F1000)) ++ Dwz_J(p.a)
      \* young over-achievers gain faster
      accel == IF p.a < 20 /\ SuccEq(pts, exp) THEN p.r // F2000 ELSE F1
      \* weak under-achievers lose slower
      brakes == p.r \prec F1300 /\ pts \preceq exp
      brake == IF brakes THEN FExpm1((F1300 -- p.r) // F150) ELSE F0
      e == (accel ** e0) ++ brake
      cap == IF FEq(brake, F0) THEN FMin(F30, F5 ** FI(p.n)) ELSE F150
  IN  IF e \preceq F5 THEN F5 ELSE FMin(e, cap)
\* The whole period is one tournament: all games are rated at once.
Dwz_Period(p, gs) ==
  LET pts == SumOver(LAMBDA g : Points(g.o), gs)
      exp == SumOver(LAMBDA g : Dwz_Expect(p, g.q), gs)
      dev == F800 // (Dwz_E(p, pts, exp) ++ FI(Len(gs)))
  IN  [r |-> p.r ++ (dev ** (pts -- exp)), n |-> p.n + 1, a |-> p.a]
Dwz_One(p, q, o) == Dwz_Period(p, <<[q |-> q, o |-> o]>>)

\* First DWZ from at least five games, neither all won nor all lost.
Dwz_Table == <<   \* rating difference for a score of 0%, 1%, ..., 50%
  728, 614, 555, 513, 480, 453, 429, 408, 389, 371, 355, 340, 326, 312, 300, 288, 276, 265, 254, 244,
  234, 224, 214, 205, 196, 187, 178, 170, 161, 153, 145, 137, 129, 121, 113, 106, 98, 91, 83, 76,
  69, 61, 54, 47, 40, 32, 25, 18, 11, 4, 0 >>
Dwz_FirstError(gs) ==
  LET twice == FoldLeft(LAMBDA acc, g : acc + OutcomeRank(g.o), 0, gs)
  IN  IF Len(gs) < 5 THEN "NotEnoughGames"
      ELSE IF twice = 0 \/ twice = 2 * Len(gs) THEN "InvalidWinRate" ELSE "none"
\* The admissible percentages: two of them when the exact quotient is a half that binary64
\* division cannot be expected to hit.
Dwz_Percent(gs) ==
  LET twice == FoldLeft(LAMBDA acc, g : acc + OutcomeRank(g.o), 0, gs)
      n == Len(gs)
      \* exact: 100 * twice / (2 n), rounded half away from zero
      down == (100 * twice) \div (2 * n)
      rem2 == 2 * (100 * twice - down * 2 * n)     \* compare 2*rem with 2n
  IN  IF rem2 < 2 * n THEN {down}
      ELSE IF rem2 > 2 * n THEN {down + 1}
      ELSE IF n \in {8, 16, 32, 64} THEN {down + 1} ELSE {down, down + 1}
Dwz_First(age, gs) ==      \* the set of admissible first ratings
  LET avg == SumOver(LAMBDA g : g.q.r, gs) // FI(Len(gs))
      diff(pc) == IF pc > 50 THEN Dwz_Table[(100 - pc) + 1] ELSE -Dwz_Table[pc + 1]
      raw(pc) == avg ++ FI(diff(pc))
      rev(x) == IF x \preceq F800 THEN FI(700) ++ (x // FI(8)) ELSE x
  IN  {[r |-> rev(raw(pc)), n |-> 1, a |-> age] : pc \in Dwz_Percent(gs)}

\* ---- Ingo: rating [r, a], smaller is better --------------------------------
F50 == FI(50)
Ingo_Expect(p, q) == Half ++ ((q.r -- p.r) // F100)
Ingo_Dev(age) == IF age <= 20 THEN F10 ELSE IF age <= 25 THEN F15 ELSE F20
Ingo_Period(p, gs) ==
  IF gs = <<>> THEN p
  ELSE LET n == FI(Len(gs))
           pts == SumOver(LAMBDA g : Points(g.o), gs) // n
           opp == SumOver(LAMBDA g : g.q.r, gs) // n
           perf == opp -- ((F100 ** pts) -- F50)
           dev == Ingo_Dev(p.a)
       IN  [r |-> ((perf ** n) ++ (p.r ** dev)) // (n ++ dev), a |-> p.a]
Ingo_One(p, q, o) == Ingo_Period(p, <<[q |-> q, o |-> o]>>)

\* ---- EGF: rating [r], cfg = [h]: handicap stones of player one (negative: of player two) ----
F3300 == FI(3300)
Egf_Floor == FI(-900)
Egf_Beta(r, h) == FI(-7) ** FLn((F3300 -- (IF FEq(h, F0) THEN F0 ELSE F100 ** (h -- Half))) -- r)
Egf_Expect(cfg, p, q) ==
  LET h == FAbs(cfg.h)
      h1 == IF cfg.h \prec F0 THEN h ELSE F0
      h2 == IF cfg.h \prec F0 THEN F0 ELSE h
  IN  LogisticE(Egf_Beta(p.r, h1) -- Egf_Beta(q.r, h2))
Egf_Con(r) == FPow((F3300 -- r) // FI(200), FS("1.6"))
Egf_Bonus(r) == FLn1p(FExp((FI(2300) -- r) // FI(80))) // F5
Egf_One(cfg, p, q, o) ==
  [r |-> FMax((p.r ++ (Egf_Con(p.r) ** (Points(o) -- Egf_Expect(cfg, p, q)))) ++ Egf_Bonus(p.r), Egf_Floor)]
\* Changes are accumulated from the rating before the period; no rating drops below the floor.
Egf_Period(p, gs) ==
  [r |-> FMax(p.r ++ SumOver(LAMBDA g : Egf_One(g.cfg, p, g.q, g.o).r -- p.r, gs), Egf_Floor)]

\* ---- USCF: rating [r, n] with n games played, cfg = [t] ---------------------
Uscf_Floor == F100
F9 == 9
Uscf_Expect(p, q) == Logistic10(p.r -- q.r, F400)
Uscf_Effective(p) ==
  LET byRating == IF p.r \prec FI(2355)
                  THEN F50 // FSqrt(FS("0.662") ++ (FS("0.00000739") ** Sq(FI(2569) -- p.r)))
                  ELSE F50
  IN  FMin(byRating, FMin(FI(p.n), F50))
Uscf_Period(cfg, p, gs) ==
  IF gs = <<>> THEN p
  ELSE LET m == Len(gs)
           sumopp == SumOver(LAMBDA g : g.q.r, gs)
           margin == FoldLeft(LAMBDA acc, g : acc + OutcomeRank(g.o) - 1, 0, gs)   \* wins - losses
           provisional == (((FI(p.n) ** p.r) ++ sumopp) ++ FI(400 * margin)) // FI(p.n + m)
           k == F800 // (Uscf_Effective(p) ++ FI(m))
           gain == k ** (SumOver(LAMBDA g : Points(g.o), gs) -- SumOver(LAMBDA g : Uscf_Expect(p, g.q), gs))
           threshold == cfg.t ** FSqrt(FI(IF m > 4 THEN m ELSE 4))
           bonus == IF m < 3 THEN F0 ELSE FMax(F0, gain -- threshold)
           new == IF p.n <= 8 THEN provisional ELSE (p.r ++ gain) ++ bonus
       IN  [r |-> FMax(new, Uscf_Floor), n |-> p.n + m]
Uscf_One(cfg, p, q, o) == Uscf_Period(cfg, p, <<[q |-> q, o |-> o]>>)
=============================================================================
