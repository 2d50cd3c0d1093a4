------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications: a recorded run of the real     *)
(* code is a sequence of events (one JSON object per line in the file      *)
(* IOEnv.TRACE); the specification takes one step per event, carries the   *)
(* state of the objects involved, and collects every disagreement in       *)
(* viol, so that one run reports all of them.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* A disagreement: the event's number, the properties concerned, the clause
V(n, props, clause) == << [n |-> n, props |-> props, clause |-> clause] >>
If(c, v) == IF c THEN v ELSE <<>>

\* e.lure: the scenario is about where keys come from
Lured(e, v) == IF e.lure THEN [k \in DOMAIN v |-> [v[k] EXCEPT !.props = @ \cup {"C20"}]] ELSE v

\* printed when the whole trace has been read
Report(viol) == /\ PrintT("VIOLS " \o ToJson(viol))
                /\ PrintT("EVENTS " \o ToString(Len(Trace)))
\* e.net: the code used the network since the event before (C20)
NetV(n, e, allowed) == If(e.net /\ ~allowed, V(n, {"C20"}, "something was fetched"))
=============================================================================
