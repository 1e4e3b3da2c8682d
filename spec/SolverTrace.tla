---------------------------- MODULE SolverTrace ----------------------------
(***************************************************************************)
(* Conformance of a solver object.  An event is a history of steps and     *)
(* readings.  Rules: "verdict" (C14), "values" (C15), "files" (C16).       *)
(***************************************************************************)
EXTENDS Solver, Dimacs, TraceBase

Has(e, r) == \E j \in DOMAIN e.rules : e.rules[j] = r

\* The answer in memory before operation n: that of the last step that should
\* have been satisfiable (0 if there is none).
RECURSIVE LastSat(_, _)
LastSat(e, n) ==
    IF n = 0 THEN 0
    ELSE IF e.steps[n].op = "step" /\ Verdict(e.steps[n].eff, e.steps[n].out) = "sat" THEN n
    ELSE LastSat(e, n - 1)

ReadWhy(e, n) ==
    LET o == e.steps[n]
        h == LastSat(e, n - 1)
        a == e.steps[h]
        T == True(a)
    IN  IF h = 0 THEN ""
        ELSE IF \E j \in DOMAIN o.vars : ~Definite(a, T, o.vars[j]) THEN "INVALID"
        ELSE IF o.err THEN "reading the values failed"
        ELSE IF Len(o.got) # Len(o.vars) THEN "not one value per variable asked"
        ELSE LET Wrong == {j \in DOMAIN o.vars : o.got[j] # Read(a, T, o.vars[j])}
             IN  IF Wrong = {}
                 THEN IF o.later = o.got THEN "" ELSE "values read before change later"
                 ELSE LET j == CHOOSE j \in Wrong : TRUE
                      IN  "the value read for " \o o.vars[j] \o " is " \o ToString(o.got[j]) \o
                          " and not " \o ToString(Read(a, T, o.vars[j]))

FilesWhy(o) ==
    IF o.left # <<>> THEN "after a step there is a " \o o.left[1]
    ELSE IF \E k \in DOMAIN o.runs : o.runs[k].files # 1
    THEN "the solver was not given exactly one formula file"
    ELSE LET bad1 == {k \in DOMAIN o.runs : DimacsWhy(o.runs[k].lines, o.cls) # ""}
         IN  IF bad1 = {} THEN ""
             ELSE "the solver did not get the complete formula: " \o
                  DimacsWhy(o.runs[CHOOSE k \in bad1 : TRUE].lines, o.cls)

OpWhy(e, n) ==
    LET o == e.steps[n]
        want == Verdict(o.eff, o.out)
    IN  CASE o.op = "values" -> IF Has(e, "values") THEN ReadWhy(e, n) ELSE ""
          [] o.op = "open"   ->
                IF Has(e, "verdict") /\ ~o.err
                THEN "a missing executable is not reported when it is opened" ELSE ""
          [] OTHER ->
                IF Has(e, "verdict") /\ o.verdict # want
                THEN "a step reports " \o o.verdict \o " and not " \o want \o " for " \o
                     ToString(o.out) \o " with fault " \o o.fault
                ELSE IF Has(e, "files") THEN FilesWhy(o) ELSE ""

RECURSIVE FirstWhy(_, _)
FirstWhy(e, n) ==
    IF n > Len(e.steps) THEN ""
    ELSE LET w == OpWhy(e, n)
         IN  IF w = "" THEN FirstWhy(e, n + 1)
             ELSE IF w = "INVALID" THEN w ELSE "operation " \o ToString(n) \o ": " \o w

Valid(e) == TRUE
Why(e) == IF e.out # "ok" THEN "outcome " \o e.out ELSE FirstWhy(e, 1)

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
