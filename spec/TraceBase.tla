----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Walking a recorded trace.  The events of a trace file (one JSON object  *)
(* per line, named by the environment variable TRACE) are checked one by   *)
(* one; Chains independent walkers share the file so that TLC can use      *)
(* several workers.  Every event the specification does not allow prints   *)
(* a REJECT line with its identity and TLC goes on, so that one run reports*)
(* all of them.  An event that is not an admissible stimulus in the first  *)
(* place (a mistake of the generator) prints INVALID.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Trace)
Chains == IF N < 64 THEN N ELSE 64

VARIABLES pos, bad
tvars == <<pos, bad>>

TraceInit == pos \in 1..Chains /\ bad = 0

\* Valid and Why are operators on events; Why yields "" for a conforming one.
TraceNext(Valid(_), Why(_)) ==
    /\ pos <= N
    /\ LET e == Trace[pos]
           w == IF ~Valid(e) THEN "INVALID" ELSE Why(e)
       IN  IF w = "" THEN bad' = bad
           ELSE /\ PrintT((IF w = "INVALID" THEN "INVALID " ELSE "REJECT ") \o e.id \o " " \o w)
                /\ bad' = bad + 1
    /\ pos' = pos + Chains
=============================================================================
