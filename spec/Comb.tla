-------------------------------- MODULE Comb --------------------------------
(***************************************************************************)
(* Boolean combinations of evaluations.  A combination is                  *)
(*   [op |-> "and" | "or", kids |-> sequence of combinations]              *)
(*   [op |-> "leaf", id |-> number, neg |-> BOOLEAN, out |-> outcome]      *)
(* where the outcome of consulting a leaf is "sat", "unsat" or "err".      *)
(* A result is [calls |-> leaves consulted, in order, res |-> "true",      *)
(* "false" or "error"].                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

B(b) == IF b THEN "true" ELSE "false"

LeafRes(c) ==
    IF c.out = "err" THEN "error"
    ELSE B((c.out = "sat") # c.neg)

RECURSIVE Eval(_), EvalSeq(_, _, _)
Eval(c) ==
    IF c.op = "leaf" THEN [calls |-> <<c.id>>, res |-> LeafRes(c)]
    ELSE EvalSeq(c, 1, <<>>)

\* the elements from number k on; "and" stops at false, "or" at true
EvalSeq(c, k, calls) ==
    IF k > Len(c.kids) THEN [calls |-> calls, res |-> B(c.op = "and")]
    ELSE LET r == Eval(c.kids[k])
             cs == calls \o r.calls
         IN  IF r.res = "error" \/ r.res = B(c.op = "or")
             THEN [calls |-> cs, res |-> r.res]
             ELSE EvalSeq(c, k + 1, cs)

\* The value of a combination without errors, as a Boolean.
RECURSIVE Bool(_)
Bool(c) ==
    CASE c.op = "leaf" -> (c.out = "sat") # c.neg
      [] c.op = "and"  -> \A k \in DOMAIN c.kids : Bool(c.kids[k])
      [] c.op = "or"   -> \E k \in DOMAIN c.kids : Bool(c.kids[k])

RECURSIVE Leaves(_), LeavesFrom(_, _)
Leaves(c) == IF c.op = "leaf" THEN <<c>> ELSE LeavesFrom(c, 1)
LeavesFrom(c, k) == IF k > Len(c.kids) THEN <<>> ELSE Leaves(c.kids[k]) \o LeavesFrom(c, k + 1)

ErrorFree(c) == \A k \in DOMAIN Leaves(c) : Leaves(c)[k].out # "err"
=============================================================================
