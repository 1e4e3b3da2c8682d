---------------------------- MODULE MC_Formulas ----------------------------
(***************************************************************************)
(* The design of negation: formulas as lists of clauses, negated by giving *)
(* every clause with more than one literal a name (both directions of the  *)
(* definition go to the consistency part) and asking for one of the names. *)
(* Every history of operations on small formulas is explored; the concrete *)
(* formula must have the abstract value Formulas gives it, auxiliary       *)
(* variables must be above the bound, and the top above everything.        *)
(***************************************************************************)
EXTENDS Formulas

CONSTANTS NB, MaxLen, MaxOps   \* base variables, clauses per list, operations

Lits == (1..NB) \cup {-v : v \in 1..NB}
Cls  == {<<>>} \cup {<<l>> : l \in Lits} \cup {<<l, m>> : l \in Lits, m \in Lits}
\* lists of clauses up to order
Lists == {<<>>} \cup {<<c>> : c \in Cls}
             \cup (IF MaxLen < 2 THEN {} ELSE {<<c, d>> : c, d \in {x \in Cls : Len(x) # 1 \/ x[1] > 0}})

Max(S) == CHOOSE m \in S \cup {0} : \A x \in S \cup {0} : x <= m
VarsOf(cls) == UNION {{Abs(cls[k][j]) : j \in DOMAIN cls[k]} : k \in DOMAIN cls}

\* concrete formulas
CFrom(cls) == [s |-> cls, c |-> <<>>, tv |-> Max(VarsOf(cls))]
CAppS(f, cls) == [f EXCEPT !.s = @ \o cls, !.tv = Max({@} \cup VarsOf(cls))]
CAppC(f, cls) == [f EXCEPT !.c = @ \o cls, !.tv = Max({@} \cup VarsOf(cls))]
CConj(f, g) == [s |-> f.s \o g.s, c |-> f.c \o g.c, tv |-> Max({f.tv, g.tv})]

Neg(l) == -l
RECURSIVE Name(_, _, _)
\* names for the clauses of the list: <<definitions, literals, next number>>
Name(cls, tv, acc) ==
    IF cls = <<>> THEN <<acc[1], acc[2], tv>>
    ELSE LET cl == Head(cls)
         IN  IF Len(cl) = 1 THEN Name(Tail(cls), tv, <<acc[1], Append(acc[2], -cl[1])>>)
             ELSE LET v == tv + 1
                      def == [j \in 1..Len(cl) |-> <<-cl[j], -v>>] \o <<Append(cl, v)>>
                  IN  Name(Tail(cls), v, <<acc[1] \o def, Append(acc[2], v)>>)

CNeg(f, bound) ==
    LET top == Max({f.tv, bound})
    IN  IF f.s = <<>> THEN [f EXCEPT !.s = <<<<>>>>, !.tv = top]
        ELSE IF \E k \in DOMAIN f.s : f.s[k] = <<>> THEN [f EXCEPT !.s = <<>>, !.tv = top]
        ELSE LET r == Name(f.s, top, <<f.c, <<>>>>)
                 e == r[2]
                 v == r[3] + 1
             IN  IF Len(e) = 1 THEN [s |-> <<e>>, c |-> r[1], tv |-> r[3]]
                 ELSE [s |-> <<<<v>>>>,
                       c |-> r[1] \o [j \in 1..Len(e) |-> <<-e[j], v>>] \o <<Append(e, -v)>>,
                       tv |-> v]

VARIABLES con, abs, n
vars == <<con, abs, n>>

Init == \E l \in Lists : con = CFrom(l) /\ abs = From(NB, l) /\ n = 0

FVars(f) == VarsOf(f.s) \cup VarsOf(f.c)

Negate ==
    \E b \in {0, NB, con.tv + 1} :
        /\ Max({con.tv, b}) >= NB    \* otherwise names may be base variables
        /\ con' = CNeg(con, b)
        /\ abs' = Negation(abs, FVars(con') \ FVars(con), n)
\* small lists to go on with
Small == {<<>>, <<<<>>>>, <<<<1>>>>, <<<<-1, NB>>>>, <<<<1>>, <<-NB, 1>>>>}
AppS == \E l \in Small : con' = CAppS(con, l) /\ abs' = AppendS(NB, abs, l)
AppC == \E l \in Small : con' = CAppC(con, l) /\ abs' = AppendC(NB, abs, l)
Conj == \E l \in Small : \E neg \in BOOLEAN :
    LET g  == CFrom(l)
        g2 == IF neg THEN CNeg(g, Max({con.tv, NB})) ELSE g
        a  == From(NB, l)
        a2 == IF neg THEN Negation(a, FVars(g2) \ FVars(g), n + 100) ELSE a
    IN  /\ Compatible(abs, a2)
        /\ con' = CConj(con, g2) /\ abs' = Conjoin(abs, a2)

Next == n < MaxOps /\ n' = n + 1 /\ (Negate \/ AppS \/ AppC \/ Conj)
Spec == Init /\ [][Next]_vars

(* Brute force over all variables of the concrete formula. *)
LitIn(A, l) == IF l > 0 THEN l \in A ELSE -l \notin A
Models(cls, A) == \A k \in DOMAIN cls : \E j \in DOMAIN cls[k] : LitIn(A, cls[k][j])
BaseSet(a) == {v \in 1..NB : BitOf(a, v) = 1}
AuxSet == {v \in FVars(con) : v > NB}
ObsC == {a \in Assignments(NB) : \E X \in SUBSET AuxSet : Models(con.c, BaseSet(a) \cup X)}
ObsSC == {a \in Assignments(NB) : \E X \in SUBSET AuxSet : Models(con.c \o con.s, BaseSet(a) \cup X)}

Refines == abs.ok => ObsC = abs.c /\ ObsSC = abs.s \cap abs.c
TopOK == \A v \in FVars(con) : v <= con.tv
AuxOK == \A p \in abs.aux : p[1] > NB
\* For a consistent assignment the auxiliary variables have one value only.
Definitional ==
    \A a \in Assignments(NB) :
        Cardinality({X \in SUBSET AuxSet : Models(con.c, BaseSet(a) \cup X)}) <= 1
=============================================================================
