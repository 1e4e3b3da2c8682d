------------------------------ MODULE Optimum ------------------------------
(***************************************************************************)
(* Optimisation: the search for an instance of a set F that no instance of *)
(* F precedes in a strict order R (a set of pairs <<smaller, larger>>), by *)
(* asking a solver again and again for anything smaller.  The solver is an *)
(* adversary: it answers with any instance that fits, and asking it or     *)
(* reading its answer may fail at any time.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES F, R, phase, chain, calls, res
ovars == <<F, R, phase, chain, calls, res>>

\* What a call asks for, given the instances found so far.
Asked(f, r, ch) == IF ch = <<>> THEN f ELSE {x \in f : <<x, ch[Len(ch)]>> \in r}

StrictOrder(f, r) ==
    /\ \A x \in f : <<x, x>> \notin r
    /\ \A x, y, z \in f : <<x, y>> \in r /\ <<y, z>> \in r => <<x, z>> \in r

Minimal(f, r, x) == x \in f /\ ~\E y \in f : <<y, x>> \in r

\* The outcome of a search that found the instances ch and then nothing.
Outcome(ch) ==
    IF ch = <<>> THEN [err |-> FALSE, found |-> FALSE, value |-> <<>>, calls |-> 1]
    ELSE [err |-> FALSE, found |-> TRUE, value |-> ch[Len(ch)], calls |-> Len(ch) + 1]

Failure == [err |-> TRUE, found |-> FALSE]

Begin ==
    /\ phase = "ask" /\ chain = <<>> /\ calls = 0 /\ res = [err |-> FALSE]

StepSat ==
    /\ phase = "ask"
    /\ \E x \in Asked(F, R, chain) : chain' = Append(chain, x)
    /\ phase' = "read" /\ calls' = calls + 1
    /\ UNCHANGED <<F, R, res>>

StepUnsat ==
    /\ phase = "ask" /\ Asked(F, R, chain) = {}
    /\ phase' = "done" /\ calls' = calls + 1
    /\ res' = Outcome(chain)
    /\ UNCHANGED <<F, R, chain>>

StepFails ==
    /\ phase = "ask" /\ phase' = "failed" /\ calls' = calls + 1
    /\ res' = Failure
    /\ UNCHANGED <<F, R, chain>>

ReadWorks == phase = "read" /\ phase' = "ask" /\ UNCHANGED <<F, R, chain, calls, res>>

ReadFails ==
    /\ phase = "read" /\ phase' = "failed" /\ res' = Failure
    /\ UNCHANGED <<F, R, chain, calls>>

Search == StepSat \/ StepUnsat \/ StepFails \/ ReadWorks \/ ReadFails
=============================================================================
