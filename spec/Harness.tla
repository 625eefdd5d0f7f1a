------------------------------ MODULE Harness ------------------------------
(***************************************************************************)
(* The boundary between the specification and the implementation.          *)
(*                                                                         *)
(* TLC replaces the operators below by the methods of the same name in     *)
(* Harness.java.  Impl(call) performs one call of the public API on the    *)
(* real library (a `conform serve` process, one per TLC worker) and is the *)
(* only operator through which the specification observes the code.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Performs the call; the result is [st |-> "ok"|"err"|"panic"|"hang"|"crash", out |-> ...].
Impl(call) == CHOOSE x \in {} : call = x
\* Performs the call as the first one of a new process.
ImplFresh(call) == CHOOSE x \in {} : call = x
\* The k-th pseudo-random number of experiment i, in 0..(n-1); a function of the run's seed.
Rnd(i, k, n) == CHOOSE x \in {} : i = k /\ n = x
\* The k-th pseudo-random float of experiment i in [lo, hi] (lo, hi integers); often a round value.
RndReal(i, k, lo, hi) == CHOOSE x \in {} : i = k /\ lo = hi
\* Numeric literals occurring in the sources of the code under test (floats), those of the given
\* system and of the parts shared by all: an input dictionary, as fuzzers use it.  Literals that
\* are not in spec/literals.txt occur more often in it.  It biases what is tried and never what
\* is accepted.
Dict(sys) == CHOOSE x \in {} : sys = x
\* Writes the rejected experiment to the replay file; always FALSE.
Report(prop, log) == CHOOSE x \in {} : prop = log
\* Counts an event of the given name for the evidence; always TRUE.
Mark(name) == CHOOSE x \in {} : name = x
\* Remembers a few accepted experiments as samples for the evidence; always TRUE.
Sample(log) == CHOOSE x \in {} : log = x
=============================================================================
