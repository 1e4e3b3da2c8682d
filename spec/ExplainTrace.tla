---------------------------- MODULE ExplainTrace ----------------------------
(***************************************************************************)
(* Conformance of explanations computed and statements evaluated by the    *)
(* whole library with an external solver process.  An event gives a tree   *)
(* and the jobs done over it, one after another, with their results.       *)
(***************************************************************************)
EXTENDS Explain, TraceBase

Params(e, j) == [c |-> j.c, c2 |-> j.c2, k |-> j.k, pref |-> j.pref, fs |-> {j.fs[i] : i \in DOMAIN j.fs}, n |-> j.n]

Valid(e) ==
    e.out = "ok" =>
        /\ WellFormedTree(e.tree, e.d)
        /\ \A i \in DOMAIN e.jobs : IsInst(e.jobs[i].c, e.d) /\ IsInst(e.jobs[i].c2, e.d) /\ ValidPref(e.jobs[i].pref, e.d)

OptimWhy(e, j, M) ==
    LET p == Params(e, j)
        S == {x \in Inst(e.d) : Explains(j.kind, M, p, x)}
        r == j.res
    IN  IF r.err THEN "an error is reported"
        ELSE IF r.found # (S # {}) THEN "found = " \o ToString(r.found)
        ELSE IF ~r.found THEN ""
        ELSE IF r.value \notin S THEN ToString(r.value) \o " is none"
        ELSE IF \E y \in S : Better(j.order, p, y, r.value)
        THEN LET y == CHOOSE y \in S : Better(j.order, p, y, r.value)
             IN  ToString(r.value) \o " is not optimal, better is " \o ToString(y)
        ELSE ""

EvalWhy(e, j, M) ==
    LET p == Params(e, j)
        r == j.res
    IN  IF r.err THEN "an error is reported"
        ELSE IF r.holds # States(j.kind, M, p) THEN "holds = " \o ToString(r.holds)
        ELSE IF r.wit # <<>> /\ ~(\A i \in DOMAIN r.wit : IsInst(r.wit[i], e.d)) THEN "a value read is no instance"
        ELSE IF r.wit # <<>> /\ ~Witness(j.kind, M, p, r.wit) THEN "the values read do not show it: " \o ToString(r.wit)
        ELSE ""

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE LET M == Model(e.tree, e.d)
             JobWhy(i) == IF e.jobs[i].mode = "optim" THEN OptimWhy(e, e.jobs[i], M) ELSE EvalWhy(e, e.jobs[i], M)
             W == {i \in DOMAIN e.jobs : JobWhy(i) # ""}
         IN  IF W = {} THEN ""
             ELSE LET i == CHOOSE i \in W : \A j \in W : i <= j
                  IN  e.jobs[i].kind \o " " \o e.jobs[i].order \o ": " \o JobWhy(i)

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
