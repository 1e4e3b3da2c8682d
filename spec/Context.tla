------------------------------ MODULE Context ------------------------------
(***************************************************************************)
(* A query context: a stack of scopes opened by guarded quantifiers, the   *)
(* variables declared so far and where, and the propositional variables.   *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   stack : sequence of scopes [t: target, i: node index, x: its instance,*)
(*           set: whether a value was set]                                 *)
(*   lev   : declared variable -> number of scopes open at its declaration *)
(*   num   : <<name, index, value>> -> propositional variable              *)
(*   top   : the largest number assigned or reserved                       *)
(* A variable lives in a position: its name and the <<target, index>>      *)
(* pairs of the scopes up to its declaration.  Internal names are in       *)
(* bijection with positions; which strings they are is left open, except   *)
(* that a variable outside all quantifiers is known by its own name (the   *)
(* values of an answer are looked up under that name).                     *)
(*                                                                         *)
(* Two situations are left open.  A variable that was not declared has no  *)
(* defined name while scopes are open; and if a variable declared outside  *)
(* all quantifiers is declared again inside one, the library may take the  *)
(* second declaration as a new variable or ignore it (level AMBIG).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFn  == [x \in {} |-> 0]
AMBIG == -1

Fresh == [stack |-> <<>>, lev |-> NoFn, num |-> NoFn, top |-> 0]

Depth(s) == Len(s.stack)

(* Which position a variable denotes, when the state determines it. *)
Determined(s, v) ==
    \/ v \in DOMAIN s.lev /\ s.lev[v] # AMBIG
    \/ v \notin DOMAIN s.lev /\ Depth(s) = 0

LevelOf(s, v) == IF v \in DOMAIN s.lev THEN s.lev[v] ELSE 0

Position(s, v) ==
    <<v, [k \in 1..LevelOf(s, v) |-> <<s.stack[k].t, s.stack[k].i>>]>>

(* What a constant with identifier t stands for: the innermost scope wins. *)
Binders(s, t) == {k \in 1..Depth(s) : s.stack[k].t = t}
Bound(s, t)   == Binders(s, t) # {}
Binding(s, t) == s.stack[CHOOSE k \in Binders(s, t) : \A j \in Binders(s, t) : j <= k]

(* The transitions. *)
AddScope(s, t) ==
    [s EXCEPT !.stack = Append(@, [t |-> t, i |-> 0, x |-> <<>>, set |-> FALSE])]

CanSet(s) == Depth(s) > 0
SetScope(s, i, x) ==
    [s EXCEPT !.stack[Depth(s)].i = i, !.stack[Depth(s)].x = x, !.stack[Depth(s)].set = TRUE]

CanPop(s) == Depth(s) > 0
PopScope(s) ==
    LET Keep == {v \in DOMAIN s.lev : s.lev[v] # Depth(s)}
    IN  [s EXCEPT !.stack = SubSeq(@, 1, Depth(s) - 1),
                  !.lev   = [v \in Keep |-> s.lev[v]]]

AddVar(s, v) ==
    IF v \notin DOMAIN s.lev
    THEN [s EXCEPT !.lev = (v :> Depth(s)) @@ @]
    ELSE IF s.lev[v] = 0 /\ Depth(s) > 0
    THEN [s EXCEPT !.lev[v] = AMBIG]
    ELSE s

Exists(s, tr) == tr \in DOMAIN s.num

\* k is the number the triple has, or a fresh one that it may get.
MayAssign(s, tr, k) == IF Exists(s, tr) THEN s.num[tr] = k ELSE k > s.top
Assign(s, tr, k) ==
    IF Exists(s, tr) THEN s
    ELSE [s EXCEPT !.num = (tr :> k) @@ @, !.top = k]

\* The same for many different triples, one after the other.
NewOnes(s, trs) == SelectSeq([j \in DOMAIN trs |-> j], LAMBDA j : ~Exists(s, trs[j]))
MayAssignMany(s, trs, ks) ==
    LET new == NewOnes(s, trs)
    IN  /\ \A j \in DOMAIN trs : Exists(s, trs[j]) => s.num[trs[j]] = ks[j]
        /\ \A j \in DOMAIN new : ks[new[j]] > (IF j = 1 THEN s.top ELSE ks[new[j - 1]])
\* f: the numbers ks of the triples trs as a function
AssignMany(s, trs, ks, f) ==
    LET new == NewOnes(s, trs)
    IN  IF new = <<>> THEN s
        ELSE [s EXCEPT !.num = f @@ @, !.top = ks[new[Len(new)]]]

MayReserve(s, k, ok) == (k > s.top => ok) /\ (k < s.top => ~ok)
Reserve(s, k) == [s EXCEPT !.top = IF k > @ THEN k ELSE @]

(***************************************************************************)
(* What holds in every state, whatever was done.                           *)
(***************************************************************************)
NumbersOK(s) ==
    /\ \A a \in DOMAIN s.num : s.num[a] > 0 /\ s.num[a] <= s.top
    /\ \A a, b \in DOMAIN s.num : s.num[a] = s.num[b] => a = b

LevelsOK(s) == \A v \in DOMAIN s.lev : s.lev[v] <= Depth(s)

PositionsOK(s) ==
    \A u, v \in DOMAIN s.lev :
        Determined(s, u) /\ Determined(s, v) /\ u # v => Position(s, u) # Position(s, v)

ContextOK(s) == NumbersOK(s) /\ LevelsOK(s) /\ PositionsOK(s)
=============================================================================
