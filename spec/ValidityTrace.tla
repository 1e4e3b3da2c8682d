--------------------------- MODULE ValidityTrace ---------------------------
(***************************************************************************)
(* Conformance of the treatment of malformed input.  An event gives a tree,*)
(* a query and the way it was used (via): encoded; encoded without a       *)
(* context; evaluated as an atom, alone or inside a combination that has to*)
(* consult it; as the formula or the order of an optimisation.  An order   *)
(* only counts once it has been asked for (used).                          *)
(***************************************************************************)
EXTENDS Validity, TraceBase

Valid(e) == e.out \notin {"ok", "err"} \/ e.via \in {"enc", "nilctx", "atom", "comb", "formula", "order"}

Demand(e) ==
    IF e.via = "nilctx" THEN "err"
    ELSE Status(e.q, {}, {e.decl[k] : k \in DOMAIN e.decl}, e.tree, e.d)

Why(e) ==
    IF e.out \notin {"ok", "err"} THEN "outcome " \o e.out
    ELSE LET s == Demand(e)
         IN  IF s = "err" /\ e.out = "ok"
             THEN IF e.via = "order" /\ ~e.used THEN "" ELSE "malformed input is not reported"
             ELSE IF s = "ok" /\ e.out = "err" THEN "well-formed input is refused"
             ELSE IF e.out = "err" /\ e.claims THEN "an error together with a positive answer"
             ELSE ""

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
