----------------------------- MODULE CombTrace -----------------------------
(***************************************************************************)
(* Conformance of Boolean combinations: with scripted outcomes (what was   *)
(* consulted and the result, kind "comb") and of real queries over a tree  *)
(* answered by a solver process (kind "combq").                            *)
(***************************************************************************)
EXTENDS Comb, Logic, TraceBase

RECURSIVE BoolQ(_, _)
BoolQ(c, M) ==
    CASE c.op = "leaf" -> Holds(c.q, <<>>, <<>>, M) # c.neg
      [] c.op = "and"  -> \A k \in DOMAIN c.kids : BoolQ(c.kids[k], M)
      [] c.op = "or"   -> \E k \in DOMAIN c.kids : BoolQ(c.kids[k], M)

RECURSIVE ValidC(_, _)
ValidC(c, M) ==
    IF c.op = "leaf" THEN WellFormedQ(c.q, <<>>, {}, 0, FALSE, M)
    ELSE \A k \in DOMAIN c.kids : ValidC(c.kids[k], M)

Valid(e) ==
    IF e.kind = "combq" /\ e.out = "ok"
    THEN WellFormedTree(e.tree, e.d) /\ ValidC(e.c, Model(e.tree, e.d))
    ELSE TRUE

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE IF e.kind = "combq"
    THEN LET want == B(BoolQ(e.c, Model(e.tree, e.d)))
         IN  IF e.res = want THEN "" ELSE "the combination is " \o want \o ", reported " \o e.res
    ELSE LET r == Eval(e.c)
         IN  IF e.res # r.res THEN "the result is " \o e.res \o " and not " \o r.res
             ELSE IF e.calls # r.calls
             THEN "consulted " \o ToString(e.calls) \o " and not " \o ToString(r.calls)
             ELSE ""

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
