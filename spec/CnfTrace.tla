------------------------------ MODULE CnfTrace ------------------------------
(***************************************************************************)
(* Conformance of formula operations.  An event is a history; formulas are *)
(* numbered in the order in which they were obtained, 1 and 2 being the    *)
(* predefined true and false.  Each step tells                             *)
(*   f      the formula obtained: number r, top tv, largest variable max,  *)
(*          sets c and sc of base assignments satisfying the consistency   *)
(*          part and both parts, variables new to its operands             *)
(*   dig    digests of the exact contents of all formulas so far           *)
(*   args   digests of all clause lists passed in so far, with the memory  *)
(*          behind them                                                    *)
(*   arg    the digest of the clause list of this step before the step     *)
(* Rules: "mean" (C11), "value" (C12), "dimacs" (C13).                     *)
(***************************************************************************)
EXTENDS Formulas, Dimacs, TraceBase

VARIABLES k, st, tops, dig, args
cvars == <<pos, bad, k, st, tops, dig, args>>

Start(e) == <<True(e.n), False(e.n)>>
Has(e, r) == \E j \in DOMAIN e.rules : e.rules[j] = r

Init == TraceInit /\ k = 1 /\ st = <<>> /\ tops = <<0, 0>> /\ dig = <<>> /\ args = <<>>

SetOf(s) == {s[i] : i \in DOMAIN s}
Unknown(e) == [True(e.n) EXCEPT !.ok = FALSE]

\* The abstract value of the formula the step obtained.
Value(S, o, e) ==
    CASE o.op = "new"  -> From(e.n, o.cl)
      [] o.op = "apps" -> AppendS(e.n, S[o.h], o.cl)
      [] o.op = "appc" -> AppendC(e.n, S[o.h], o.cl)
      [] o.op = "neg"  -> Negation(S[o.h], SetOf(o.f.new), k)
      [] o.op = "conj" -> Conjoin(S[o.h], S[o.g])
      [] OTHER -> Unknown(e)

\* base variables must not have been taken as auxiliary ones
Clean(v, e) == \A a \in v.aux : a[1] > e.n

TopMax(a, b) == IF a > b THEN a ELSE b

MeanWhy(S, T, o, e) ==
    LET v == Value(S, o, e)
        f == o.f
    IN  IF f.max > f.tv THEN "the top variable " \o ToString(f.tv) \o " is below a variable in use, " \o ToString(f.max)
        ELSE IF o.op = "neg" /\ \E x \in SetOf(f.new) : x <= T[o.h] \/ x <= o.bound \/ x <= o.hmax
        THEN "an auxiliary variable is not above the formula and the bound"
        ELSE IF ~v.ok \/ ~Clean(v, e) THEN ""
        ELSE IF SetOf(f.c) # v.c THEN "the consistency part of the result of " \o o.op \o " means something else"
        ELSE IF SetOf(f.sc) # v.s \cap v.c THEN "the result of " \o o.op \o " means something else"
        ELSE IF f.tt /\ v.s # Assignments(e.n) THEN "a formula that can be false is reported trivially true"
        ELSE IF f.tf /\ v.s # {} THEN "a formula that can be true is reported trivially false"
        ELSE ""

ValueWhy(o) ==
    IF \E i \in DOMAIN dig : o.dig[i] # dig[i]
    THEN "the operation " \o o.op \o " changed formula " \o
         ToString(CHOOSE i \in DOMAIN dig : o.dig[i] # dig[i])
    ELSE IF \/ \E i \in DOMAIN args : o.args[i] # args[i]
            \/ "arg" \in DOMAIN o /\ o.args[Len(o.args)] # o.arg
    THEN "the operation " \o o.op \o " changed a clause list of the caller"
    ELSE ""

WriteWhy(o) ==
    IF o.experr
    THEN IF o.err THEN "" ELSE "a text that could not be written was not reported"
    ELSE IF o.err THEN "writing the text failed"
    ELSE IF ~o.equal THEN "the file and the text in memory differ"
    ELSE DimacsWhy(o.lines, o.cls)

StepWhy(o, e) ==
    LET a == IF o.op = "write" THEN (IF Has(e, "dimacs") THEN WriteWhy(o) ELSE "")
             ELSE IF o.op # "start" /\ Has(e, "mean") THEN MeanWhy(st, tops, o, e) ELSE ""
    IN  IF a # "" THEN a
        ELSE IF Has(e, "value") THEN ValueWhy(o) ELSE ""

NextEvent ==
    pos' = pos + Chains /\ k' = 1 /\ st' = <<>> /\ tops' = <<0, 0>> /\ dig' = <<>> /\ args' = <<>>

Report(e, w) ==
    /\ PrintT("REJECT " \o e.id \o " step " \o ToString(k) \o ": " \o w)
    /\ bad' = bad + 1

Next ==
    /\ pos <= N
    /\ LET e == Trace[pos]
       IN  IF e.out # "ok"
           THEN Report(e, "outcome " \o e.out) /\ NextEvent
           ELSE IF k > Len(e.steps) THEN bad' = bad /\ NextEvent
           ELSE LET o == e.steps[k]
                    w == StepWhy(o, e)
                IN  IF w # ""
                    THEN Report(e, w) /\ NextEvent
                    ELSE /\ bad' = bad /\ pos' = pos /\ k' = k + 1
                         /\ st' = CASE o.op = "start" -> Start(e)
                                    [] o.op = "write" -> st
                                    [] OTHER -> Append(st, Value(st, o, e))
                         /\ tops' = IF o.op \in {"start", "write"} THEN tops ELSE Append(tops, o.f.tv)
                         /\ dig' = o.dig
                         /\ args' = o.args

Spec == Init /\ [][Next]_cvars
=============================================================================
