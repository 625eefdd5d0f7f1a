------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded traces: `conform season` runs a league program   *)
(* written against the traits on the real library and records every step   *)
(* as one line [ev, arguments, res, ladder].  Every line has to be a step  *)
(* of the league, with results the laws admit, that leads to the recorded  *)
(* ladder; and the invariants of the league hold in every state on the way.*)
(***************************************************************************)
EXTENDS League, Json, IOUtils

CONSTANTS Prop, Files       \* Files: number of trace files, trace-1.ndjson ...

Traces == [k \in 1..Files |-> ndJsonDeserialize("trace-" \o ToString(k) \o ".ndjson")]
VARIABLES file, l           \* which trace, and the next line

Line == Traces[file][l]
IsEvent(e) == l <= Len(Traces[file]) /\ Line.ev = e /\ l' = l + 1 /\ UNCHANGED file

TraceInit ==
  /\ file \in 1..Files /\ l = 2
  /\ LET s == Traces[file][1] IN s.ev = "start" /\ LeagueInit(s.sys, s.cfg, s.ladder)

TraceStart ==                \* the next season of the file
  /\ IsEvent("start")
  /\ sys' = Line.sys /\ cfg' = Line.cfg /\ ladder' = Line.ladder /\ base' = Line.ladder
  /\ games' = Zeros(Line.ladder) /\ rated' = Zeros(Line.ladder)
  /\ last' = [act |-> "start", calls |-> <<>>, before |-> Line.ladder]
TracePlay == IsEvent("play") /\ Play(Line.i, Line.j, Line.o, Line.res)
TraceIdle == IsEvent("idle") /\ Idle(Line.i, Line.res)
TraceRound == IsEvent("round") /\ Round(Line.table, Line.res)
TraceTeams == IsEvent("teams") /\ TeamGame(Line.m, Line.o, Line.res)
TraceMulti == IsEvent("multi") /\ MultiGame(Line.ranks, Line.res)
TraceEnd == l > Len(Traces[file]) /\ UNCHANGED <<lvars, file, l>>

TraceNext == TraceStart \/ TracePlay \/ TraceIdle \/ TraceRound \/ TraceTeams \/ TraceMulti \/ TraceEnd
Spec == TraceInit /\ [][TraceNext]_<<lvars, file, l>>

\* The ladder the program had is the ladder the specification has
Agrees == ladder = Traces[file][l - 1].ladder
Noted == Mark(last.act)
Holds == (LeagueOK /\ Agrees)
         \/ Report(Prop, [prop |-> Prop, kind |-> [file |-> file, line |-> l - 1], sys |-> sys, cfg |-> cfg, base |-> base,
                          games |-> games, rated |-> rated, ladder |-> ladder, last |-> last, recorded |-> Traces[file][l - 1].ladder])
\* A trace that is not consumed to its end is a deadlock (TraceEnd is then not enabled)
=============================================================================
