----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* Skeletons of sessions: which operation uses which context and solver    *)
(* object, which of them fail, what is read and which query values are     *)
(* used again.  The queries are filled in by the harness.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC

CONSTANTS MaxOps, NCtx, NSol, Every

VARIABLES h
Out == IOEnv.OUT
Init == h = <<>>

Do(o) ==
    /\ h' = Append(h, o)
    /\ Every => CSVWrite("%1$s", <<ToJson(h')>>, Out)

Finish ==
    /\ ~Every /\ Len(h) = MaxOps
    /\ CSVWrite("%1$s", <<ToJson(h)>>, Out)
    /\ h' = Append(h, [op |-> "end"])

Objects == {i \in DOMAIN h : h[i].op \in {"sat", "step"} /\ h[i].of = 0}

\* Kinds of evaluation: what goes wrong.  Weights only matter when simulating.
Kind(w) == IF w <= 6 THEN "good" ELSE IF w = 7 THEN "bad" ELSE "fault"
Ops(w) == CASE w <= 3 -> "step" [] w <= 5 -> "sat" [] OTHER -> "optim"

\* Symmetry: contexts and solver objects are first used in order.
UsedC == {h[i].c : i \in DOMAIN h} \ {0}
UsedS == {h[i].s : i \in DOMAIN h} \ {0}
MayC(c) == \A x \in 1..(c - 1) : x \in UsedC
MayS(s) == \A x \in 1..(s - 1) : x \in UsedS

Next ==
    \/ /\ Len(h) < MaxOps
       /\ \/ \E c \in 1..NCtx, s \in 1..NSol, op \in 1..6, k \in 1..8 :
                MayC(c) /\ MayS(s) /\ Do([op |-> Ops(op), c |-> c, s |-> s, k |-> Kind(k), of |-> 0])
          \/ \E c \in 1..NCtx, s \in 1..NSol, i \in Objects, w \in 1..3 :
                MayC(c) /\ MayS(s) /\ Do([op |-> h[i].op, c |-> c, s |-> s, k |-> h[i].k, of |-> i])
          \/ \E s \in UsedS, i \in {i \in DOMAIN h : i > Len(h) - 5}, w \in 1..50 :
                h[i].op = "step" /\ h[i].k = "good" /\ h[i].s = s /\ Do([op |-> "values", c |-> h[i].c, s |-> s, k |-> "good", of |-> i])
          \/ \E c \in UsedC, w \in 1..6 :
                h[Len(h)].op # "reset" /\ Do([op |-> "reset", c |-> c, s |-> 0, k |-> "good", of |-> 0])
    \/ Finish
Spec == Init /\ [][Next]_h
=============================================================================
