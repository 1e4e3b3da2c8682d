----------------------------- MODULE GenContext -----------------------------
(***************************************************************************)
(* Histories of contexts to be replayed on the library, made by TLC from   *)
(* the transitions of Context: with VIEW on the abstract state, one history*)
(* for every transition of the state graph (a shortest way to its source,  *)
(* then the transition); in simulation, long random ones.  Only operations *)
(* whose meaning the specification determines are used.                    *)
(***************************************************************************)
EXTENDS Context, Json, CSV, IOUtils

CONSTANTS Vars, Targets, Idx, Insts, MaxDepth, Ctxs, MaxOps, Every, ResetOK, MaxNum

OneInst  == {<<0, 1>>}
TwoInsts == {<<0, 1>>, <<2, 0>>}

VARIABLES ctx, h
vars == <<ctx, h>>

Out == IOEnv.OUT
Emit(hist) == CSVWrite("%1$s", <<ToJson(hist)>>, Out)

Init == ctx = [c \in Ctxs |-> Fresh] /\ h = <<>>

\* Every: emit at every transition (otherwise complete histories only).
Do(c, o, s) ==
    /\ ctx' = [ctx EXCEPT ![c] = s]
    /\ h' = Append(h, o)
    /\ Every => Emit(h')

\* A complete history is written down once it has been chosen.
Finish ==
    /\ ~Every /\ Len(h) = MaxOps
    /\ Emit(h)
    /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED ctx

Clear(s, v) == ~(v \in DOMAIN s.lev /\ s.lev[v] = 0 /\ Depth(s) > 0)

Step(c) ==
    LET s == ctx[c]
    IN  \/ \E t \in Targets, i \in Idx, x \in Insts :
              /\ Depth(s) < MaxDepth
              /\ Do(c, [op |-> "open", c |-> c, t |-> t, i |-> i, x |-> x],
                    SetScope(AddScope(s, t), i, x))
        \/ \E i \in Idx, x \in Insts :
              /\ CanSet(s)
              /\ Do(c, [op |-> "setscope", c |-> c, i |-> i, x |-> x], SetScope(s, i, x))
        \/ /\ ~CanSet(s)
           /\ Do(c, [op |-> "setscope", c |-> c, i |-> 0, x |-> <<>>], s)
        \/ Do(c, [op |-> "popscope", c |-> c], IF CanPop(s) THEN PopScope(s) ELSE s)
        \/ \E v \in Vars : Clear(s, v) /\ Do(c, [op |-> "addvar", c |-> c, v |-> v], AddVar(s, v))
        \/ \E v \in Vars, i \in {0, 1} :
              /\ Determined(s, v)
              /\ Cardinality(DOMAIN s.num) < MaxNum
              /\ Do(c, [op |-> "cnfvar", c |-> c, v |-> v, scoped |-> TRUE, i |-> i, val |-> 1],
                    Assign(s, <<Position(s, v), i, 1>>, s.top + 1))
        \/ \E k \in {s.top - 1, s.top + 2} :
              /\ k > 0 /\ s.top < 2 * MaxNum
              /\ Do(c, [op |-> "updatetop", c |-> c, i |-> k], Reserve(s, k))
        \/ ResetOK /\ Do(c, [op |-> "reset", c |-> c], Fresh)

Next == (Len(h) < MaxOps /\ \E c \in Ctxs : Step(c)) \/ Finish
Spec == Init /\ [][Next]_vars

View == ctx
=============================================================================
