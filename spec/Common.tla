------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Vocabulary shared by all rating systems: outcomes, the points they are  *)
(* worth, and a little real arithmetic on top of the Float64 primitives.   *)
(***************************************************************************)
EXTENDS Float64, SequencesExt, FiniteSets, TLC

F0 == FI(0)          F1 == FI(1)          F2 == FI(2)        F3 == FI(3)
F10 == FI(10)        F100 == FI(100)      F350 == FI(350)    F400 == FI(400)
F600 == FI(600)      F800 == FI(800)      F1000 == FI(1000)
Half == FS("0.5")
Pi == FS("3.141592653589793")
Sqrt2 == FSqrt(F2)

Outcomes == {"W", "D", "L"}                  \* from the perspective of the first player

Points(o) == CASE o = "W" -> F1 [] o = "D" -> Half [] o = "L" -> F0
Inv(o)    == CASE o = "W" -> "L" [] o = "D" -> "D" [] o = "L" -> "W"
OutcomeRank(o) == CASE o = "L" -> 0 [] o = "D" -> 1 [] o = "W" -> 2

Sq(x)    == x ** x
Recip(x) == F1 // x
Succ(x, y) == FLt(y, x)
Clamp(x, lo, hi) == FMin(FMax(x, lo), hi)
SuccEq(x, y) == FLe(y, x)

\* Sum of f(s[1]), ..., f(s[Len(s)])
SumOver(f(_), s) == FoldLeft(LAMBDA acc, x : acc ++ f(x), F0, s)
FSum(s) == FoldLeft(LAMBDA acc, x : acc ++ x, F0, s)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

\* The logistic curve in base ten: 1 / (1 + 10^(-d/scale))
Logistic10(d, scale) == Recip(F1 ++ FPow(F10, FNeg(d) // scale))
\* ... and in base e
LogisticE(d) == Recip(F1 ++ FExp(FNeg(d)))

\* Default relative tolerance of all numeric comparisons.  The library computes in binary64;
\* re-associating its sums moves results by a few units in the last place, far below this.
Tol == FS("1e-9")
Eps12 == FS("1e-12")
Near(x, y) == FNear(x, y, Tol)
NearT(x, y, t) == FNear(x, y, t)
\* x <= y up to the tolerance
Leq(x, y) == FLe(x, y) \/ Near(x, y)

\* Ratings are records; all fields that are floats must be near, all others equal.
FloatFields == {"r", "d", "v"}
NearRatingT(x, y, t) ==
  /\ DOMAIN x = DOMAIN y
  /\ \A k \in DOMAIN x : IF k \in FloatFields THEN FNear(x[k], y[k], t) ELSE x[k] = y[k]
NearRating(x, y) == NearRatingT(x, y, Tol)
NearTeamT(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NearRatingT(s[i], t[i], tol)
NearTeam(s, t) == NearTeamT(s, t, Tol)
NearTeamsT(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NearTeamT(s[i], t[i], tol)
NearTeams(s, t) == NearTeamsT(s, t, Tol)
NearSeqT(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : FNear(s[i], t[i], tol)
NearSeq(s, t) == NearSeqT(s, t, Tol)
FiniteRating(x) == \A k \in DOMAIN x : k \in FloatFields => FFinite(x[k])
=============================================================================
