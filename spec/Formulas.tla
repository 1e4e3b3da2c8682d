------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* Formulas in conjunctive normal form kept in two parts, as values.       *)
(*                                                                         *)
(* Base variables are 1..n; an assignment of them is a number in           *)
(* 0..2^n-1, bit v-1 being the value of variable v.  The abstract value of *)
(* a formula is                                                            *)
(*   c   : the assignments that satisfy its consistency part (with some    *)
(*         values of the auxiliary variables)                              *)
(*   s   : among those, the ones for which the formula is true             *)
(*   aux : auxiliary variables <<number, origin>>, origin identifying the  *)
(*         negation that introduced it                                     *)
(*   ok  : whether s and c are determined.  Two negations that chose the   *)
(*         same numbers must not be put together: that is why a caller     *)
(*         passes a bound.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Assignments(n) == 0..(Pow2(n) - 1)

Abs(l) == IF l < 0 THEN -l ELSE l
BitOf(a, v) == (a \div Pow2(v - 1)) % 2
LitTrue(a, l) == (l > 0) = (BitOf(a, Abs(l)) = 1)
ClauseTrue(a, cl) == \E k \in DOMAIN cl : LitTrue(a, cl[k])
AllTrue(a, cls) == \A k \in DOMAIN cls : ClauseTrue(a, cls[k])
Sat(n, cls) == {a \in Assignments(n) : AllTrue(a, cls)}

True(n)  == [s |-> Assignments(n), c |-> Assignments(n), aux |-> {}, ok |-> TRUE]
False(n) == [True(n) EXCEPT !.s = {}]

From(n, cls) == [True(n) EXCEPT !.s = Sat(n, cls)]

AppendS(n, f, cls) == [f EXCEPT !.s = @ \cap Sat(n, cls)]
AppendC(n, f, cls) == [f EXCEPT !.s = @ \cap Sat(n, cls), !.c = @ \cap Sat(n, cls)]

\* new: the auxiliary variables the negation introduced, id: its identity
Negation(f, new, id) ==
    [f EXCEPT !.s = f.c \ f.s, !.aux = @ \cup {<<v, id>> : v \in new}]

Compatible(f, g) ==
    \A a \in f.aux, b \in g.aux : a[1] = b[1] => a[2] = b[2]

Conjoin(f, g) ==
    [s   |-> f.s \cap g.s,
     c   |-> f.c \cap g.c,
     aux |-> f.aux \cup g.aux,
     ok  |-> f.ok /\ g.ok /\ Compatible(f, g)]
=============================================================================
