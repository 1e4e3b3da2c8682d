---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Conformance of sessions: every evaluation gives what its query means by *)
(* itself over the model of its context, and what is read satisfies the    *)
(* query of the step that was answered.  An event lists operations and     *)
(* what was observed for each of them.                                     *)
(***************************************************************************)
EXTENDS Validity, Comb, TraceBase

O == INSTANCE Optimum WITH F <- {}, R <- {}, phase <- "", chain <- <<>>, calls <- 0, res <- 0

TreeOf(e, c) == e.trees[e.ctxs[c]]
D(e, c) == e.ds[e.ctxs[c]]
M(e, c) == Model(TreeOf(e, c), D(e, c))

Outcome(e, o, q) ==
    IF o.fault # "none" \/ Status(q, {}, {}, TreeOf(e, o.c), D(e, o.c)) = "err" THEN "err"
    ELSE IF Holds(q, <<>>, <<>>, M(e, o.c)) THEN "sat" ELSE "unsat"

RECURSIVE Fill(_, _, _), Qs(_), QsFrom(_, _)
Fill(e, o, c) ==
    IF c.op = "leaf" THEN [op |-> "leaf", id |-> c.id, neg |-> c.neg, out |-> Outcome(e, o, c.q)]
    ELSE [op |-> c.op, kids |-> [k \in DOMAIN c.kids |-> Fill(e, o, c.kids[k])]]
Qs(c) == IF c.op = "leaf" THEN <<c>> ELSE QsFrom(c, 1)
QsFrom(c, k) == IF k > Len(c.kids) THEN <<>> ELSE Qs(c.kids[k]) \o QsFrom(c, k + 1)

SetF(e, o) == {x \in Inst(D(e, o.c)) : Holds(o.q, o.v :> x, <<>>, M(e, o.c))}
Pairs(e, o, f, below) == {p \in f \X below : Holds(o.o, o.v :> p[1], ("u" :> p[2]) @@ <<>>, M(e, o.c))}

GoodQ(e, o, q) ==
    LET s == Status(q, {}, {}, TreeOf(e, o.c), D(e, o.c))
    IN  s = "err" \/ (s = "ok" /\ WellFormedQ(q, <<>>, {}, 0, FALSE, M(e, o.c)))

\* The status of what an optimisation asks for.
OptStatus(e, o) == Status(o.q, {}, {o.v}, TreeOf(e, o.c), D(e, o.c))

ValidOp(e, o) ==
    CASE o.op = "sat"  -> \A k \in DOMAIN Qs(o.comb) : GoodQ(e, o, Qs(o.comb)[k].q)
      [] o.op = "step" -> GoodQ(e, o, o.q)
      [] o.op = "optim" ->
            /\ OptStatus(e, o) \in {"ok", "err"}
            /\ OptStatus(e, o) = "ok" =>
                LET f == SetF(e, o) IN O!StrictOrder(f, Pairs(e, o, f, f))
      [] OTHER -> TRUE

Valid(e) ==
    e.out = "ok" =>
        /\ \A k \in DOMAIN e.trees : WellFormedTree(e.trees[k], e.ds[k])
        /\ \A k \in DOMAIN e.ops : ValidOp(e, e.ops[k])

(***************************************************************************)
(* What each solver object holds after the first k operations: the number  *)
(* of the step whose answer it is, or 0 if that is not known or can not be *)
(* read any more.                                                          *)
(***************************************************************************)
Consulted(e, o) ==
    LET L == Qs(o.comb)
        r == Eval(Fill(e, o, o.comb))
    IN  [k \in DOMAIN r.calls |-> CHOOSE j \in DOMAIN L : L[j].id = r.calls[k]]
AnySat(e, o) ==
    LET L == Qs(o.comb)
    IN  \E k \in DOMAIN Consulted(e, o) : Outcome(e, o, L[Consulted(e, o)[k]].q) = "sat"

OptFails(e, o) == o.fault # "none" \/ OptStatus(e, o) = "err"

RECURSIVE HeldBy(_, _, _)
HeldBy(e, k, s) ==
    IF k = 0 THEN 0
    ELSE LET o == e.ops[k]
             b == HeldBy(e, k - 1, s)
             gone == b > 0 /\ e.ops[b].c = o.c
         IN  CASE o.op = "reset" -> IF gone THEN 0 ELSE b
               [] o.op = "step" /\ o.s = s  -> IF Outcome(e, o, o.q) = "sat" THEN k ELSE b
               [] o.op = "sat" /\ o.s = s   -> IF AnySat(e, o) THEN 0 ELSE b
               [] o.op = "optim" ->  \* starts with a reset
                     IF gone THEN 0
                     ELSE IF o.s = s /\ ~OptFails(e, o) /\ SetF(e, o) # {} THEN 0 ELSE b
               [] OTHER -> b

SatWhy(e, o, b) ==
    LET r == Eval(Fill(e, o, o.comb))
    IN  IF b.res = r.res THEN "" ELSE "a combination gives " \o b.res \o " and not " \o r.res

StepWhy(e, o, b) ==
    LET w == Outcome(e, o, o.q)
        v == IF w = "err" THEN "error" ELSE w
    IN  IF b.res = v THEN "" ELSE "a step reports " \o b.res \o " and not " \o v

OptimWhy(e, o, b) ==
    IF OptFails(e, o)
    THEN IF ~b.err \/ b.found THEN "a failing optimisation is not reported" ELSE ""
    ELSE IF b.err THEN "an optimisation fails although nothing is wrong"
    ELSE LET f == SetF(e, o)
         IN  IF b.found # (f # {}) THEN "an optimisation reports found = " \o ToString(b.found)
             ELSE IF ~b.found THEN ""
             ELSE IF b.value \notin f THEN "an optimisation returns something that does not satisfy its formula"
             ELSE IF ~O!Minimal(f, Pairs(e, o, f, {b.value}), b.value)
             THEN "an optimisation returns something that is not optimal: " \o ToString(b.value) ELSE ""

\* Earlier readings of the same answer.
Before(e, k) ==
    {j \in 1..(k - 1) : e.ops[j].op = "values" /\ e.ops[j].of = e.ops[k].of /\ e.ops[j].s = e.ops[k].s /\ e.obs[j].done}

ReadWhy(e, o, b, k) ==
    IF HeldBy(e, k - 1, o.s) # o.of THEN ""
    ELSE IF ~b.done THEN "there was no answer to read"
    ELSE IF b.err THEN "reading the values failed"
    ELSE IF Len(b.got) # Len(o.vars) THEN "not one value per variable asked"
    ELSE IF \E j \in DOMAIN b.got : ~IsInst(b.got[j], D(e, o.c)) THEN "a value that is no instance"
    ELSE IF \E i, j \in DOMAIN o.vars : o.vars[i] = o.vars[j] /\ b.got[i] # b.got[j]
    THEN "two values for one variable"
    ELSE LET Vs  == {o.vars[j] : j \in DOMAIN o.vars}
             val == [n \in Vs |-> b.got[CHOOSE j \in DOMAIN o.vars : o.vars[j] = n]]
             st  == e.ops[o.of]
         IN  IF ~Holds(st.q, val, <<>>, M(e, st.c))
             THEN "the values read do not satisfy the query: " \o ToString(val)
             ELSE IF \E i \in Before(e, k) : HeldBy(e, i - 1, o.s) = o.of /\
                        \E x \in DOMAIN e.ops[i].vars, y \in DOMAIN o.vars :
                            e.ops[i].vars[x] = o.vars[y] /\ e.obs[i].got[x] # b.got[y]
             THEN "a variable is read with another value than before" ELSE ""

OpWhy(e, k) ==
    LET o == e.ops[k]
        b == e.obs[k]
    IN  CASE o.op = "sat"    -> SatWhy(e, o, b)
          [] o.op = "step"   -> StepWhy(e, o, b)
          [] o.op = "optim"  -> OptimWhy(e, o, b)
          [] o.op = "values" -> ReadWhy(e, o, b, k)
          [] OTHER -> ""

RECURSIVE FirstWhy(_, _)
FirstWhy(e, k) ==
    IF k > Len(e.ops) THEN ""
    ELSE LET w == OpWhy(e, k)
         IN  IF w = "" THEN FirstWhy(e, k + 1) ELSE "operation " \o ToString(k) \o ": " \o w

Why(e) == IF e.out # "ok" THEN "outcome " \o e.out ELSE FirstWhy(e, 1)

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
