----------------------------- MODULE MC_Context -----------------------------
(***************************************************************************)
(* All histories of two contexts over small sets of names: the state       *)
(* invariants of Context, that numbers are stable until a reset, that the  *)
(* top only grows, that queries change nothing, that a reset gives a fresh *)
(* context, and that an operation on one context leaves the other alone.   *)
(* A new number is chosen with a gap of one, so that nothing depends on    *)
(* numbers being consecutive.                                              *)
(***************************************************************************)
EXTENDS Context

CONSTANTS Vars, Targets, Idx, MaxDepth, MaxTop, Ctxs, MaxOps

VARIABLES ctx, last, ops
vars == <<ctx, last, ops>>

Init == ctx = [c \in Ctxs |-> Fresh] /\ last = [op |-> "new", c |-> 0] /\ ops = 0

Do(c, name, s) == ctx' = [ctx EXCEPT ![c] = s] /\ last' = [op |-> name, c |-> c]

Step(c) ==
    LET s == ctx[c]
    IN  \/ \E t \in Targets : Depth(s) < MaxDepth /\ Do(c, "addscope", AddScope(s, t))
        \/ \E i \in Idx : CanSet(s) /\ Do(c, "setscope", SetScope(s, i, <<i>>))
        \/ CanPop(s) /\ Do(c, "popscope", PopScope(s))
        \/ \E v \in Vars : Do(c, "addvar", AddVar(s, v))
        \/ \E v \in Vars, k \in 1..MaxTop :
               /\ Determined(s, v)
               /\ MayAssign(s, <<Position(s, v), 0, 0>>, k)
               /\ k <= s.top + 2
               /\ Do(c, "cnfvar", Assign(s, <<Position(s, v), 0, 0>>, k))
        \/ \E k \in 1..MaxTop : MayReserve(s, k, k >= s.top) /\ Do(c, "updatetop", Reserve(s, k))
        \/ Do(c, "reset", Fresh)

Next == ops < MaxOps /\ ops' = ops + 1 /\ \E c \in Ctxs : Step(c)
Spec == Init /\ [][Next]_vars

Inv == \A c \in Ctxs : ContextOK(ctx[c])

Isolated == [][\A c \in Ctxs : c # last'.c => ctx'[c] = ctx[c]]_vars

Stable ==
    [][\A c \in Ctxs : last'.op # "reset" =>
          /\ \A tr \in DOMAIN ctx[c].num : tr \in DOMAIN ctx'[c].num /\ ctx'[c].num[tr] = ctx[c].num[tr]
          /\ ctx'[c].top >= ctx[c].top
          /\ \A tr \in DOMAIN ctx'[c].num \ DOMAIN ctx[c].num : ctx'[c].num[tr] > ctx[c].top]_vars

\* A variable keeps its position while the scopes up to its declaration do
\* not change.
Positioned ==
    [][\A c \in Ctxs : last'.op \in {"addscope", "addvar", "cnfvar", "updatetop"} =>
          \A v \in DOMAIN ctx[c].lev :
             Determined(ctx'[c], v) => Position(ctx'[c], v) = Position(ctx[c], v)]_vars

\* Opening a scope and closing it again changes nothing but what was declared.
Nested == \A c \in Ctxs, t \in Targets : PopScope(AddScope(ctx[c], t)) = ctx[c]

Innermost ==
    \A c \in Ctxs, t \in Targets, i \in Idx :
        Binding(SetScope(AddScope(ctx[c], t), i, <<i>>), t).i = i

View == <<ctx, ops>>
=============================================================================
