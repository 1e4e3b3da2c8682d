----------------------------- MODULE MC_Orders -----------------------------
(***************************************************************************)
(* Laws of the relations on instances, on which the statements about       *)
(* optimisation lean: checked on all instances of a small dimension and    *)
(* all preferences.  A state is a preference and an instance to compare to.*)
(***************************************************************************)
EXTENDS Explain

CONSTANT D

RECURSIVE Seqs(_)
Seqs(F) == {<<>>} \cup UNION {{<<f>> \o s : s \in Seqs(F \ {f})} : f \in F}

VARIABLES pref, c
Init == pref \in Seqs(0..(D - 1)) /\ c = AllBot(D)
Next == c' \in Inst(D) /\ UNCHANGED pref
Spec == Init /\ [][Next]_<<pref, c>>

I == Inst(D)
P == [c |-> c, c2 |-> c, k |-> TRUE, pref |-> pref, fs |-> {}, n |-> 0]

PartialOrders == {"smaller", "larger", "fewer", "more", "prefers", "avoids", "fewerThenPrefers"}

Strict(o, S) ==
    /\ \A x \in S : ~Better(o, P, x, x)
    /\ \A x, y \in S : Better(o, P, x, y) =>
          /\ ~Better(o, P, y, x)
          /\ \A z \in S : Better(o, P, y, z) => Better(o, P, x, z)

OrdersAreStrict ==
    /\ \A o \in PartialOrders : Strict(o, I)
    /\ Full(c) => \A o \in {"nearer", "farther"} : Strict(o, FullInst(D))

\* The strict orders as the queries write them: R(x, y) and not R(y, x).
AsWritten ==
    \A x, y \in I :
        /\ Better("smaller", P, x, y) = (Subsumed(x, y) /\ ~Subsumed(y, x))
        /\ Better("fewer", P, x, y) = (LessEqLevel(x, y) /\ ~LessEqLevel(y, x))
        /\ Better("prefers", P, x, y) = (HigherEqRank(x, y, pref) /\ ~HigherEqRank(y, x, pref))
        /\ Full(c) /\ Full(x) /\ Full(y) =>
              Better("nearer", P, x, y) = (LessEqHamming(c, x, y) /\ ~LessEqHamming(c, y, x))

Preorders ==
    \A x, y \in I :
        /\ Subsumed(x, x) /\ (Subsumed(x, y) /\ Subsumed(y, x) => x = y)
        /\ Subsumed(x, y) => LessEqLevel(x, y) /\ Consistent(x, y)
        /\ LessEqLevel(x, y) \/ LessEqLevel(y, x)
        /\ HigherEqRank(x, y, pref) \/ HigherEqRank(y, x, pref)
        /\ Consistent(x, y) = Consistent(y, x)
        /\ Consistent(x, y) = (\E z \in I : Subsumed(x, z) /\ Subsumed(y, z))
        /\ Len(pref) = D /\ HigherEqRank(x, y, pref) /\ HigherEqRank(y, x, pref) => Defined(x) = Defined(y)
        /\ pref = <<>> => HigherEqRank(x, y, pref)
        /\ Hamming(x, y) = Hamming(y, x) /\ (Hamming(x, y) = 0 <=> x = y)
        /\ Hamming(x, y) <= Hamming(x, c) + Hamming(c, y)

Transitive ==
    \A x, y \in I :
        /\ Subsumed(x, y) /\ Subsumed(y, c) => Subsumed(x, c)
        /\ HigherEqRank(x, y, pref) /\ HigherEqRank(y, c, pref) => HigherEqRank(x, c, pref)
        /\ Full(x) = (\A z \in I : Subsumed(x, z) => z = x)
=============================================================================
