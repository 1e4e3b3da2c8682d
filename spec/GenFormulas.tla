---------------------------- MODULE GenFormulas ----------------------------
(***************************************************************************)
(* Histories of formula operations: which operation on which of the        *)
(* formulas obtained so far.  Formulas 1 and 2 are the predefined true and *)
(* false.  The clauses are filled in afterwards.  Early formulas are used  *)
(* again and again, which is where sharing would show.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC

CONSTANTS MaxOps, Every, Full

VARIABLES h
Out == IOEnv.OUT
Init == h = <<>>

Handles == 1..(2 + Len(h))
\* in exhaustive mode the predefined formulas are operands of few operations
Ops == {"apps", "appc"}

Step(o) ==
    /\ h' = Append(h, o)
    /\ Every => CSVWrite("%1$s", <<ToJson(h')>>, Out)

\* A complete history is written down once it has been chosen.
Finish ==
    /\ ~Every /\ Len(h) = MaxOps
    /\ CSVWrite("%1$s", <<ToJson(h)>>, Out)
    /\ h' = Append(h, [op |-> "end"])

Derive ==
    /\ Len(h) < MaxOps
    /\ \/ Len(h) \in {0, 1} /\ Step([op |-> "new"])
       \/ \E a \in Handles, o \in Ops : (Full \/ a > 2 \/ Len(h) < 2) /\ Step([op |-> o, h |-> a])
       \/ \E a \in Handles, b \in {"none", "low", "top"} :
              (Full \/ a > 2 \/ Len(h) < 1) /\ Step([op |-> "neg", h |-> a, bound |-> b])
       \/ \E a, b \in Handles : (Full \/ (a > 2 /\ b > 1)) /\ Step([op |-> "conj", h |-> a, g |-> b])

Next == Derive \/ Finish
Spec == Init /\ [][Next]_h
=============================================================================
