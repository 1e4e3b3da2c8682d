------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session: contexts and solver objects used one after another by        *)
(* evaluations, readings, failing runs and resets.                         *)
(*                                                                         *)
(* This is the design that makes evaluations independent: a context gives  *)
(* every name a number of its own until it is reset, a solver object keeps *)
(* the text of its last satisfying answer, and reading an answer means     *)
(* looking for the numbers of the names, in the context of the step, among *)
(* the numbers of that text.  An answer says something (anything) about    *)
(* all numbers in use and pins only what the step is about.                *)
(* The ghost held[s] is what a user expects to read.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ctxs, Solvers, Names, MaxEpoch

VARIABLES epoch, num, ans, held
svars == <<epoch, num, ans, held>>

None == [c |-> 0]

Init ==
    /\ epoch = [c \in Ctxs |-> 0]
    /\ num   = [c \in Ctxs |-> <<>>]
    /\ ans   = [s \in Solvers |-> {}]
    /\ held  = [s \in Solvers |-> None]

Top(f) == Cardinality(DOMAIN f)
Put(f, n) == IF n \in DOMAIN f THEN f ELSE f @@ (n :> Top(f) + 1)

\* A satisfied step about a name that is new to the context.
StepSat(c, s, n, v) ==
    /\ n \notin DOMAIN num[c]
    /\ num' = [num EXCEPT ![c] = Put(@, n)]
    /\ \E junk \in SUBSET (1..Top(num[c])) :
          ans' = [ans EXCEPT ![s] = IF v = 1 THEN junk \cup {Top(num[c]) + 1} ELSE junk]
    /\ held' = [held EXCEPT ![s] = [c |-> c, ep |-> epoch[c], n |-> n, v |-> v]]
    /\ UNCHANGED epoch

\* A step that is not satisfied or fails leaves the answer, not the numbering.
StepNot(c, s, n) ==
    /\ n \notin DOMAIN num[c]
    /\ num' = [num EXCEPT ![c] = Put(@, n)]
    /\ UNCHANGED <<epoch, ans, held>>

\* A combination is several steps; the user does not know which one was last.
Combination(c, s, n) ==
    /\ n \notin DOMAIN num[c]
    /\ num' = [num EXCEPT ![c] = Put(@, n)]
    /\ \E t \in SUBSET (1..(Top(num[c]) + 1)) : ans' = [ans EXCEPT ![s] = t]
    /\ held' = [held EXCEPT ![s] = None]
    /\ UNCHANGED epoch

Reset(c) ==
    /\ epoch[c] < MaxEpoch
    /\ epoch' = [epoch EXCEPT ![c] = @ + 1]
    /\ num' = [num EXCEPT ![c] = <<>>]
    /\ UNCHANGED <<ans, held>>

Next ==
    \E c \in Ctxs :
        \/ Reset(c)
        \/ \E s \in Solvers, n \in Names :
              \/ \E v \in {0, 1} : StepSat(c, s, n, v)
              \/ StepNot(c, s, n)
              \/ Combination(c, s, n)
Spec == Init /\ [][Next]_svars

Readable(s) == held[s] # None /\ held[s].ep = epoch[held[s].c]

ReadRight ==
    \A s \in Solvers : Readable(s) =>
        LET g == held[s] IN (num[g.c][g.n] \in ans[s]) = (g.v = 1)

\* Two names of a context never share a number.
Apart == \A c \in Ctxs : \A n, m \in DOMAIN num[c] : num[c][n] = num[c][m] => n = m
=============================================================================
