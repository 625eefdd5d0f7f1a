------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC.                                   *)
(*                                                                         *)
(* A float is the pair <<hi, lo>> of the two 32-bit halves (as signed      *)
(* integers) of its bit pattern, so equality of floats as TLA+ values is   *)
(* bit-for-bit equality.  TLC replaces every operator declared here by the *)
(* method of the same name in Float64.java; the definitions below are      *)
(* only there to fix the arities.  Everything built on top of these        *)
(* primitives (all the rating formulas) is ordinary TLA+.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Constructors
FI(n)        == CHOOSE x \in {} : n = x      \* from an integer
FS(s)        == CHOOSE x \in {} : s = x      \* from a decimal literal, e.g. FS("173.7178")
\* Arithmetic
FAdd(a, b)   == CHOOSE x \in {} : a = b
FSub(a, b)   == CHOOSE x \in {} : a = b
FMul(a, b)   == CHOOSE x \in {} : a = b
FDiv(a, b)   == CHOOSE x \in {} : a = b
FNeg(a)      == CHOOSE x \in {} : a = x
FAbs(a)      == CHOOSE x \in {} : a = x
FSqrt(a)     == CHOOSE x \in {} : a = x
FExp(a)      == CHOOSE x \in {} : a = x
FExpm1(a)    == CHOOSE x \in {} : a = x
FLn(a)       == CHOOSE x \in {} : a = x
FLn1p(a)     == CHOOSE x \in {} : a = x
FPow(a, b)   == CHOOSE x \in {} : a = b
FHypot(a, b) == CHOOSE x \in {} : a = b
FMin(a, b)   == CHOOSE x \in {} : a = b      \* like f64::min: a NaN operand is ignored
FMax(a, b)   == CHOOSE x \in {} : a = b
\* Predicates
FLt(a, b)    == CHOOSE x \in {} : a = b
FLe(a, b)    == CHOOSE x \in {} : a = b
FEq(a, b)    == CHOOSE x \in {} : a = b      \* numeric equality: -0 = 0, NaN # NaN
FIsNaN(a)    == CHOOSE x \in {} : a = x
FFinite(a)   == CHOOSE x \in {} : a = x
FNegSign(a)  == CHOOSE x \in {} : a = x      \* sign bit set (true for -0)
\* |a - b| <= tol * max(1, |a|, |b|); false if either is NaN or they are different infinities
FNear(a, b, tol) == CHOOSE x \in {} : a = b /\ tol = x
\* Conversions
FRound(a)    == CHOOSE x \in {} : a = x      \* to the nearest integer, halves away from zero
FShow(a)     == CHOOSE x \in {} : a = x      \* decimal rendering, for messages
\* The identity; TLC evaluates the argument completely (it would keep functions unevaluated).
Force(x)     == x

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a \prec b   == FLt(a, b)
a \preceq b == FLe(a, b)
=============================================================================
