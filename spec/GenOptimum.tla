----------------------------- MODULE GenOptimum -----------------------------
(* Searches over the three instances of one feature: every set, every strict*)
(* order, every answer of the solver and every failure, written down when   *)
(* they are over.                                                           *)
EXTENDS Optimum, Json, CSV, IOUtils, TLC

Out == IOEnv.OUT
X == {<<0>>, <<1>>, <<2>>}

Init == /\ F \in SUBSET X
        /\ R \in {r \in SUBSET (X \X X) : StrictOrder(X, r)}
        /\ Begin

Write ==
    phase' \in {"done", "failed"} =>
        CSVWrite("%1$s", <<ToJson([f |-> F, r |-> R, chain |-> chain', calls |-> calls',
                                   failed |-> phase' = "failed", reading |-> phase = "read"])>>, Out)
Next == Search /\ Write
Spec == Init /\ [][Next]_ovars
=============================================================================
