------------------------------- MODULE Dimacs -------------------------------
(***************************************************************************)
(* The DIMACS CNF format.  A text is a sequence of lines: [k: "c"] comment,*)
(* [k: "p", a: <<variables, clauses>>] header, [k: "n", a: numbers], and   *)
(* [k: "bad"] anything else.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Numbers(lines) == FlattenSeq([k \in DOMAIN lines |-> IF lines[k].k = "n" THEN lines[k].a ELSE <<>>])

\* The clauses a list of numbers stands for (it must end with a zero).
ClausesOf(nums) ==
    FoldLeft(LAMBDA acc, x :
                IF x = 0 THEN <<Append(acc[1], acc[2]), <<>>>>
                ELSE <<acc[1], Append(acc[2], x)>>,
             <<<<>>, <<>>>>, nums)[1]

Abs1(l) == IF l < 0 THEN -l ELSE l

\* Equal up to the order of the elements.
SameBag(a, b) ==
    \/ a = b
    \/ /\ Len(a) = Len(b)
       /\ ToSet(a) = ToSet(b)
       /\ \/ Cardinality(ToSet(a)) = Len(a)
          \/ \A k \in DOMAIN a :
             Cardinality({j \in DOMAIN a : a[j] = a[k]}) = Cardinality({j \in DOMAIN b : b[j] = a[k]})

\* Clauses up to the order of their literals.
CountLits(cl) == [l \in {cl[k] : k \in DOMAIN cl} |-> Cardinality({k \in DOMAIN cl : cl[k] = l})]
SameClauses(a, b) ==
    \/ a = b
    \/ SameBag([k \in DOMAIN a |-> CountLits(a[k])], [k \in DOMAIN b |-> CountLits(b[k])])

DimacsWhy(lines, cls) ==
    LET Heads == {k \in DOMAIN lines : lines[k].k = "p"}
        nums  == Numbers(lines)
    IN  IF \E k \in DOMAIN lines : lines[k].k = "bad" THEN "the text has a malformed line"
        ELSE IF Cardinality(Heads) # 1 THEN "the text does not have one header"
        ELSE LET h == CHOOSE k \in Heads : TRUE
                 nv == lines[h].a[1]
                 nc == lines[h].a[2]
             IN  IF \E k \in DOMAIN lines : k < h /\ lines[k].k = "n" THEN "clauses before the header"
                 ELSE IF Len(nums) > 0 /\ nums[Len(nums)] # 0 THEN "the last clause is not terminated"
                 ELSE LET read == ClausesOf(nums)
                      IN  IF Len(read) # nc THEN "the header announces another number of clauses"
                          ELSE IF \E k \in DOMAIN nums : Abs1(nums[k]) > nv
                          THEN "the text uses a variable beyond the header's count"
                          ELSE IF ~SameClauses(read, cls)
                          THEN "the clauses read back are not the formula's" ELSE ""
=============================================================================
