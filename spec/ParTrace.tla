------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* Conformance of evaluations made side by side (see Concurrent.tla): each *)
(* of them is an event of the semantics of queries or of explanations, and *)
(* must be what these specifications allow for it alone; the temporary     *)
(* directory is clean at the end and every solver process got one file.    *)
(***************************************************************************)
EXTENDS TraceBase

Q == INSTANCE QueryTrace
X == INSTANCE ExplainTrace

Valid(e) ==
    e.out = "ok" =>
        \A i \in DOMAIN e.evals :
            IF e.evals[i].kind = "query" THEN Q!Valid(e.evals[i])
            ELSE e.evals[i].out = "ok" => X!Valid(e.evals[i])

EvalWhy(s) == IF s.kind = "query" THEN Q!Why(s) ELSE X!Why(s)

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE LET W == {i \in DOMAIN e.evals : EvalWhy(e.evals[i]) # ""}
         IN  IF \E i \in W : EvalWhy(e.evals[i]) = "INVALID" THEN "INVALID"
             ELSE IF W # {}
             THEN LET i == CHOOSE i \in W : \A j \in W : i <= j
                  IN  "evaluation " \o ToString(i) \o ": " \o EvalWhy(e.evals[i])
             ELSE IF e.left # <<>> THEN "afterwards there is a " \o e.left[1]
             ELSE IF \E k \in DOMAIN e.files : e.files[k] # 1
             THEN "a solver process was not given exactly one file"
             ELSE ""

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
