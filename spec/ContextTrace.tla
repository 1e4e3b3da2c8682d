---------------------------- MODULE ContextTrace ----------------------------
(***************************************************************************)
(* Conformance of real contexts with Context.  An event is a history of up *)
(* to two contexts: its steps are the operations done on them, by the      *)
(* driver or by the library while it encodes a query, each with what it    *)
(* returned.  One transition per step.                                     *)
(*                                                                         *)
(* A step with same = TRUE was done on the second context with what was    *)
(* done just before on the first, which was reset after its history while  *)
(* the second is new: both must give the same results.                     *)
(***************************************************************************)
EXTENDS Context, TraceBase

VARIABLES k, ctx, nm, open
cvars == <<pos, bad, k, ctx, nm, open>>

Two == [c \in {1, 2} |-> Fresh]

Init == TraceInit /\ k = 1 /\ ctx = Two /\ nm = NoFn /\ open = <<>>

(* Names: nm[c] maps the positions seen so far to their names.  Contexts   *)
(* need not agree on names.                                                *)
NameOK(m, c, p, n) ==
    /\ (p[2] = <<>>) => n = p[1]
    /\ <<c, p>> \in DOMAIN m => m[<<c, p>>] = n
    /\ \A q \in DOMAIN m : q[1] = c /\ q[2] # p => m[q] # n

(* Which properties an event is about: "scope" (C08), "num" (C09), "same"  *)
(* (C10).  Every step moves the state; only the steps that bear on the     *)
(* property are judged.                                                    *)
RuleOf(o) ==
    IF o.op \in {"setscope", "popscope", "scopevar", "scopeconst"} THEN "scope"
    ELSE IF o.op \in {"cnfvar", "cnfvars", "exists", "topv", "updatetop"} THEN "num"
    ELSE "any"
Has(e, r) == \E j \in DOMAIN e.rules : e.rules[j] = r

\* The triples of an operation on many: o.w values for each index.
Triples(o) == [j \in 1..Len(o.ks) |-> <<o.n, o.i + (j - 1) \div o.w, (j - 1) % o.w>>]
Numbers(o) ==
    LET trs == Triples(o)
    IN  [t \in {trs[j] : j \in DOMAIN trs} |-> o.ks[(t[2] - o.i) * o.w + t[3] + 1]]

StepWhy(s, m, o, c, e) ==
    CASE o.op \in {"addscope", "addvar", "reset", "encbegin"} -> ""
      [] o.op = "setscope" ->
            IF o.ok = CanSet(s) THEN "" ELSE "setting a scope " \o (IF o.ok THEN "succeeded without a scope" ELSE "failed")
      [] o.op = "popscope" ->
            IF o.ok = CanPop(s) THEN "" ELSE "closing a scope " \o (IF o.ok THEN "succeeded without a scope" ELSE "failed")
      [] o.op = "scopevar" ->
            IF ~Determined(s, o.v) \/ NameOK(m, c, Position(s, o.v), o.n) THEN ""
            ELSE "the internal name of " \o o.v \o " at " \o ToString(Position(s, o.v)) \o " is " \o ToString(o.n)
      [] o.op = "scopeconst" ->
            IF Bound(s, o.t)
            THEN IF ~o.ok THEN "the bound constant " \o o.t \o " is reported as free"
                 ELSE IF Binding(s, o.t).set /\ o.x # Binding(s, o.t).x
                 THEN "the constant " \o o.t \o " is " \o ToString(o.x) \o " and not " \o ToString(Binding(s, o.t).x)
                 ELSE IF o.id # o.t THEN "the constant lost its identifier" ELSE ""
            ELSE IF o.ok THEN "the free constant " \o o.t \o " is reported as bound"
                 ELSE IF o.x # o.own \/ o.id # o.t THEN "a free constant was changed" ELSE ""
      [] o.op = "cnfvar" ->
            IF MayAssign(s, <<o.n, o.i, o.val>>, o.k) THEN ""
            ELSE "number " \o ToString(o.k) \o " for " \o ToString(<<o.n, o.i, o.val>>) \o
                 (IF Exists(s, <<o.n, o.i, o.val>>)
                  THEN " which has " \o ToString(s.num[<<o.n, o.i, o.val>>])
                  ELSE " is not above everything assigned or reserved, " \o ToString(s.top))
      [] o.op = "cnfvars" ->
            IF MayAssignMany(s, Triples(o), o.ks) THEN ""
            ELSE "numbers for " \o ToString(Len(o.ks)) \o " triples of " \o o.n \o " from " \o ToString(o.i)
      [] o.op = "exists" ->
            IF o.ok = Exists(s, <<o.n, o.i, o.val>>) THEN ""
            ELSE "existence of " \o ToString(<<o.n, o.i, o.val>>) \o " is reported as " \o ToString(o.ok)
      [] o.op = "topv" ->
            IF o.k = s.top THEN "" ELSE "the top is reported as " \o ToString(o.k) \o " and not " \o ToString(s.top)
      [] o.op = "updatetop" ->
            IF MayReserve(s, o.k, o.ok) THEN ""
            ELSE "reserving " \o ToString(o.k) \o " above " \o ToString(s.top) \o " is answered " \o ToString(o.ok)
      [] o.op = "dim" -> IF o.k = e.d THEN "" ELSE "the dimension changed"
      [] o.op = "encend" ->
            IF Has(e, "scope") /\ s.stack # open[1] THEN "encoding a query changed the scope stack"
            ELSE IF Has(e, "num") /\ o.ok /\ o.max > s.top
            THEN "the formula uses " \o ToString(o.max) \o " which is not reserved, the top is " \o ToString(s.top)
            ELSE ""
      [] OTHER -> "INVALID"

StepState(s, o) ==
    CASE o.op = "addscope"  -> AddScope(s, o.t)
      [] o.op = "setscope"  -> IF CanSet(s) THEN SetScope(s, o.i, o.x) ELSE s
      [] o.op = "popscope"  -> IF CanPop(s) THEN PopScope(s) ELSE s
      [] o.op = "addvar"    -> AddVar(s, o.v)
      [] o.op = "cnfvar"    -> Assign(s, <<o.n, o.i, o.val>>, o.k)
      [] o.op = "cnfvars"   -> AssignMany(s, Triples(o), o.ks, Numbers(o))
      [] o.op = "updatetop" -> Reserve(s, o.k)
      [] o.op = "reset"     -> Fresh
      [] OTHER -> s

Results == {"ok", "n", "x", "k", "ks", "id"}
Same(a, b) == \A f \in Results : (f \in DOMAIN a /\ f \in DOMAIN b) => a[f] = b[f]

NextEvent == pos' = pos + Chains /\ k' = 1 /\ ctx' = Two /\ nm' = NoFn /\ open' = <<>>

Report(e, w) ==
    /\ PrintT((IF w = "INVALID" THEN "INVALID " ELSE "REJECT ") \o e.id \o " step " \o ToString(k) \o ": " \o w)
    /\ bad' = bad + 1

Next ==
    /\ pos <= N
    /\ LET e == Trace[pos]
       IN  IF e.out # "ok"
           THEN Report(e, "outcome " \o e.out) /\ NextEvent
           ELSE IF k > Len(e.steps) THEN bad' = bad /\ NextEvent
           ELSE LET o == e.steps[k]
                    c == o.c
                    s == ctx[c]
                    w == IF "same" \in DOMAIN o /\ Has(e, "same") /\ ~Same(o, e.steps[k - 1])
                         THEN "a reset context and a new one differ in " \o ToString(<<e.steps[k - 1], o>>)
                         ELSE IF RuleOf(o) = "any" \/ Has(e, RuleOf(o)) THEN StepWhy(s, nm, o, c, e)
                         ELSE ""
                IN  IF o.op = "encend" /\ o.panic
                    THEN bad' = bad /\ NextEvent \* what a crash leaves behind is undefined
                    ELSE IF w # ""
                    THEN Report(e, w) /\ NextEvent
                    ELSE /\ bad' = bad /\ pos' = pos /\ k' = k + 1
                         /\ ctx' = [ctx EXCEPT ![c] = StepState(s, o)]
                         /\ nm' = IF o.op = "scopevar" /\ Determined(s, o.v)
                                  THEN (<<c, Position(s, o.v)>> :> o.n) @@ nm
                                  ELSE nm
                         /\ open' = CASE o.op = "encbegin" -> <<s.stack>> \o open
                                      [] o.op = "encend" -> Tail(open)
                                      [] OTHER -> open

Spec == Init /\ [][Next]_cvars
=============================================================================
