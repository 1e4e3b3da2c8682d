------------------------------ MODULE OptTrace ------------------------------
(***************************************************************************)
(* Conformance of optimisations.  An event gives the set F and the order R *)
(* (mode "table"), or the formulas that define them (mode "query": q about *)
(* the variable v, o about v and the constant u), every call made to the   *)
(* solver with the instances of v that satisfy what was asked (as a truth  *)
(* table in canonical order), the answer it got, and the result.           *)
(* Rules: "opt" (C18), "steps" (C19), "fail" (C20), "files" (C16).         *)
(***************************************************************************)
EXTENDS Logic, Dimacs, TraceBase

O == INSTANCE Optimum WITH F <- {}, R <- {}, phase <- "", chain <- <<>>, calls <- 0, res <- 0

Has(e, r) == \E j \in DOMAIN e.rules : e.rules[j] = r

RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)
InstAt(k, d) == [i \in 1..d |-> (k \div Pow3(i - 1)) % 3]

Table(e) == e.mode = "table"

SetF(e) ==
    IF Table(e) THEN {e.F[k] : k \in DOMAIN e.F}
    ELSE LET M == Model(e.tree, e.d)
         IN  {x \in Inst(e.d) : Holds(e.q, e.v :> x, <<>>, M)}

\* The pairs of F in the order; with below = <<>> all of them, otherwise
\* those whose second element is in it.
Pairs(e, f, below) ==
    IF Table(e) THEN {<<e.R[k][1], e.R[k][2]>> : k \in DOMAIN e.R}
    ELSE LET M == Model(e.tree, e.d)
         IN  {p \in f \X below : Holds(e.o, e.v :> p[1], ("u" :> p[2]) @@ <<>>, M)}

Valid(e) ==
    e.out = "ok" =>
        /\ ~Table(e) => WellFormedTree(e.tree, e.d)
        /\ (e.d <= 2 \/ Table(e)) =>
              LET f == SetF(e) IN O!StrictOrder(f, Pairs(e, f, f) \cap (f \X f))

Read(e) == e.fail.k \in {"read", "readunsat"}

\* Did something fail on the way?
Failed(e) ==
    \/ \E k \in DOMAIN e.calls : e.calls[k].ans \in {"err", "enc"}
    \/ e.readfailed
    \/ e.fail.k = "nilctx"
    \/ e.fail.k = "tmp" /\ e.bin

Undetermined(e) == e.fail.k = "tmp" /\ ~e.bin

Found(e) == LET S == SelectSeq(e.calls, LAMBDA c : c.ans = "sat") IN [k \in DOMAIN S |-> S[k].x]

OptWhy(e, f) ==
    LET r == e.res
    IN  IF Failed(e) \/ Undetermined(e) THEN ""
        ELSE IF r.err THEN "an error is reported although nothing failed"
        ELSE IF r.found # (f # {}) THEN "reported found = " \o ToString(r.found)
        ELSE IF ~r.found THEN ""
        ELSE IF r.value \notin f THEN "the value returned does not satisfy the formula: " \o ToString(r.value)
        ELSE LET p == Pairs(e, f, {r.value})
             IN  IF ~O!Minimal(f, p, r.value)
                 THEN "the value returned is not optimal: " \o ToString(r.value) \o ", better is " \o
                      ToString((CHOOSE y \in f : <<y, r.value>> \in p))
                 ELSE ""

AskedSet(c, d) == {InstAt(k - 1, d) : k \in {j \in DOMAIN c.asked : c.asked[j] = 1}}

StepsWhy(e, f) ==
    LET n  == Len(e.calls)
        ch == Found(e)
        p  == Pairs(e, f, f \cap {ch[k] : k \in DOMAIN ch})
        Wrong == {k \in 1..n : e.calls[k].asked # <<>> /\
                     AskedSet(e.calls[k], e.d) # O!Asked(f, p, SubSeq(ch, 1, k - 1))}
    IN  IF \E k \in 1..(n - 1) : e.calls[k].ans # "sat" THEN "calls go on after call without an answer"
        ELSE IF Wrong # {}
        THEN LET k == CHOOSE k \in Wrong : \A j \in Wrong : k <= j
             IN  "call " \o ToString(k) \o " asks for " \o ToString(AskedSet(e.calls[k], e.d)) \o " and not for " \o
                 ToString(O!Asked(f, p, SubSeq(ch, 1, k - 1)))
        ELSE IF Failed(e) \/ Undetermined(e) THEN ""
        ELSE IF e.res.err THEN ""
        ELSE IF e.res.calls # n THEN "reported " \o ToString(e.res.calls) \o " calls, made " \o ToString(n)
        ELSE IF e.res.calls # O!Outcome(ch).calls THEN "the search ends too early or too late"
        ELSE ""

FailWhy(e) ==
    IF Failed(e)
    THEN IF ~e.res.err THEN "a failure (" \o e.fail.k \o ") is not reported"
         ELSE IF e.res.found THEN "an instance is reported as found in spite of a failure"
         ELSE ""
    ELSE IF e.res.err /\ e.res.found THEN "an error together with an instance"
    ELSE IF ~Undetermined(e) /\ e.res.err THEN "an error is reported although nothing failed"
    ELSE ""

FilesWhy(e) ==
    IF e.left # <<>> THEN "after the optimisation there is a " \o e.left[1]
    ELSE LET W == {k \in DOMAIN e.runs : e.runs[k].files # 1 \/ DimacsWhy(e.runs[k].lines, e.runs[k].cls) # ""}
         IN  IF W # {} THEN "the solver did not get exactly one file with the complete formula" ELSE ""

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE LET f == SetF(e)
             a == IF Has(e, "opt") THEN OptWhy(e, f) ELSE ""
             b == IF a = "" /\ Has(e, "steps") THEN StepsWhy(e, f) ELSE a
             c == IF b = "" /\ Has(e, "fail") THEN FailWhy(e) ELSE b
         IN  IF c = "" /\ Has(e, "files") THEN FilesWhy(e) ELSE c

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
