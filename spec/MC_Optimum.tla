----------------------------- MODULE MC_Optimum -----------------------------
(* Every set and every strict order over a few instances, every behaviour   *)
(* of the solver.                                                           *)
EXTENDS Optimum

CONSTANT X

Init == /\ F \in SUBSET X
        /\ R \in {r \in SUBSET (X \X X) : StrictOrder(X, r)}
        /\ Begin
Spec == Init /\ [][Search]_ovars /\ WF_ovars(Search)

Descending == \A k \in 1..(Len(chain) - 1) : <<chain[k + 1], chain[k]>> \in R /\ chain[k + 1] \in F
Calls == calls <= Cardinality(F) + 1 /\ (phase = "done" => res.calls = calls)
Right == phase = "done" =>
            /\ res.found = (F # {})
            /\ res.found => Minimal(F, R, res.value)
            /\ ~res.found => calls = 1
            /\ calls = Len(chain) + 1
NoAnswer == phase = "failed" => res.err /\ ~res.found
Terminates == <>(phase \in {"done", "failed"})
=============================================================================
