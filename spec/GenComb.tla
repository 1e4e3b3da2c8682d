------------------------------ MODULE GenComb ------------------------------
(***************************************************************************)
(* Combinations, built from left to right as sequences of tokens: "and",   *)
(* "or" open a combination, "end" closes it, a leaf is true, false or an   *)
(* error.  The complete ones are written down; that is what the code is    *)
(* tried on.  Checked on the way, on every combination: without errors the *)
(* left-to-right evaluation yields the Boolean value, leaves are consulted *)
(* in their order and once, and the result is an error exactly when a      *)
(* consulted leaf is one.                                                  *)
(***************************************************************************)
EXTENDS Comb, Json, CSV, IOUtils, TLC

CONSTANTS MaxTok, Write

VARIABLES h, open, cnt
Out == IOEnv.OUT

Init == h = <<>> /\ open = 0 /\ cnt = 0

Complete == h # <<>> /\ open = 0

Tok(t, d) ==
    /\ Len(h) + 1 + open + d <= MaxTok
    /\ h' = Append(h, t)
    /\ open' = open + d
    /\ (Write /\ open' = 0) => CSVWrite("%1$s", <<ToJson(h')>>, Out)

Next ==
    /\ ~Complete
    /\ \/ \E t \in {"and", "or"} : Tok(t, 1) /\ UNCHANGED cnt
       \/ \E t \in {"t", "f", "e"} : Tok(t, 0) /\ cnt' = cnt + 1
       \/ open > 0 /\ Tok("end", -1) /\ UNCHANGED cnt

Spec == Init /\ [][Next]_<<h, open, cnt>>

\* The combination a complete sequence stands for: parsing yields the
\* combination and the next position.
RECURSIVE Parse(_, _), Kids(_, _, _)
Parse(k, id) ==
    IF h[k] \in {"and", "or"}
    THEN LET r == Kids(k + 1, id, <<>>)
         IN  [c |-> [op |-> h[k], kids |-> r.c], k |-> r.k, id |-> r.id]
    ELSE [c |-> [op |-> "leaf", id |-> id, neg |-> FALSE,
                 out |-> CASE h[k] = "t" -> "sat" [] h[k] = "f" -> "unsat" [] OTHER -> "err"],
          k |-> k + 1, id |-> id + 1]
Kids(k, id, acc) ==
    IF h[k] = "end" THEN [c |-> acc, k |-> k + 1, id |-> id]
    ELSE LET r == Parse(k, id) IN Kids(r.k, r.id, Append(acc, r.c))

The == Parse(1, 1).c

Lawful ==
    Complete =>
        LET c == The
            r == Eval(c)
            ls == Leaves(c)
        IN  /\ ErrorFree(c) => r.res = B(Bool(c))
            /\ \A k \in 1..(Len(r.calls) - 1) : r.calls[k] < r.calls[k + 1]
            /\ (r.res = "error") = \E k \in DOMAIN r.calls : ls[r.calls[k]].out = "err"
=============================================================================
