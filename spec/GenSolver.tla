----------------------------- MODULE GenSolver -----------------------------
(***************************************************************************)
(* Histories of a solver object: how each step ends, whether it uses the   *)
(* context of the step before or a new one, and when values are read.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC

CONSTANTS MaxOps, Every

VARIABLES h
Out == IOEnv.OUT
Init == h = <<>>

Ends == {"sat", "unsat", "code", "signal", "start", "enc", "tmp", "write", "solve"}

Step(o) ==
    /\ h' = Append(h, o)
    /\ Every => CSVWrite("%1$s", <<ToJson(h')>>, Out)

Finish ==
    /\ ~Every /\ Len(h) = MaxOps
    /\ CSVWrite("%1$s", <<ToJson(h)>>, Out)
    /\ h' = Append(h, [op |-> "end"])

Read == \E i \in DOMAIN h : h[i].op = "step" /\ h[i].end \in {"sat", "solve"}

Next ==
    \/ /\ Len(h) < MaxOps
       /\ \/ \E x \in Ends, s \in BOOLEAN :
                /\ s => \E i \in DOMAIN h : h[i].op = "step"
                /\ Step([op |-> "step", end |-> x, same |-> s])
          \/ Read /\ h[Len(h)].op = "step" /\ Step([op |-> "values"])
    \/ Finish
Spec == Init /\ [][Next]_h
=============================================================================
