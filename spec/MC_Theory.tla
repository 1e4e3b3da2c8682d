----------------------------- MODULE MC_Theory -----------------------------
(***************************************************************************)
(* What the other modules take for granted, checked on every decision tree *)
(* of a small dimension: the predicates through leaves are the predicates  *)
(* by definition, and facts about trees, explanations and orders that say  *)
(* the definitions are the right ones.  A state is a tree.                 *)
(***************************************************************************)
EXTENDS Explain

CONSTANT D

\* Trees as nested records, and laid out as the library takes them.
RECURSIVE Shapes(_)
Shapes(F) ==
    {[leaf |-> TRUE, v |-> b] : b \in BOOLEAN} \cup
    UNION {{[leaf |-> FALSE, f |-> f, l |-> l, r |-> r] : l, r \in Shapes(F \ {f})} : f \in F}

RECURSIVE Lay(_, _)
Lay(s, at) == \* the nodes of s when its root is number at (from 0)
    IF s.leaf THEN <<Leaf(s.v)>>
    ELSE LET L == Lay(s.l, at + 1)
             R == Lay(s.r, at + 1 + Len(L))
         IN  <<Inner(s.f, at + 1, at + 1 + Len(L))>> \o L \o R

\* A state is a tree; trees with two subtrees are made in a step from their
\* feature and left subtree, for TLC to share the work.
VARIABLES T, part
Init ==
    \/ \E s \in Shapes({}) : T = Lay(s, 0) /\ part = <<>>
    \/ \E f \in 0..(D - 1) : \E l \in Shapes(0..(D - 1) \ {f}) : T = <<>> /\ part = <<f, l>>
Next ==
    /\ part # <<>> /\ part' = <<>>
    /\ \E r \in Shapes(0..(D - 1) \ {part[1]}) :
          T' = Lay([leaf |-> FALSE, f |-> part[1], l |-> part[2], r |-> r], 0)
Spec == Init /\ [][Next]_<<T, part>>

I == Inst(D)

Proper == WellFormedTree(T, D)

Leaves(M) == \* every full instance reaches exactly one leaf, the one that classifies it
    \A y \in FullInst(D) :
        /\ Cardinality({l \in M.pos \cup M.neg : Subsumed(l, y)}) = 1
        /\ Classify(T, y) = (\E l \in M.pos : Subsumed(l, y))

FastIsDefinition(M) ==
    \A x \in I :
        /\ IsNode(M, x) = IsNodeDef(T, D, x)
        /\ \A c \in BOOLEAN : AllComp(M, x, c) = AllCompDef(T, x, c)
        /\ DetFeatSet(M, x) = DFSDef(T, x)

Monotone(M) == \* what is enough stays enough when features are added
    \A x, y \in I : Subsumed(x, y) =>
        /\ \A c \in BOOLEAN : AllComp(M, x, c) => AllComp(M, y, c)
        /\ DetFeatSet(M, x) => DetFeatSet(M, y)

Together(M) == \* a determinant set that is filled decides; one class at most
    \A x \in I :
        /\ ~(AllComp(M, x, TRUE) /\ AllComp(M, x, FALSE))
        /\ DetFeatSet(M, x) => AllComp(M, x, TRUE) \/ AllComp(M, x, FALSE)
        /\ Full(x) => DetFeatSet(M, x)
        /\ DetFeatSet(M, x) = \A y \in I : Defined(y) = Defined(x) => AllComp(M, y, TRUE) \/ AllComp(M, y, FALSE)

ThroughNodes(M) == \* the formulation of "all completions are k" by nodes
    \A x \in I, k \in BOOLEAN :
        AllComp(M, x, k) = (\A n \in M.nodes : ~(AllComp(M, n, ~k) /\ Consistent(x, n)))

Exist(M) == \* an instance is its own sufficient reason; optimal ones exist
    \A c \in FullInst(D) :
        /\ SR(M, c, c)
        /\ \E x \in I : SR(M, c, x) /\ ~\E y \in I : SR(M, c, y) /\ Subsumed(y, x) /\ y # x
Theory ==
    T # <<>> =>
        /\ Proper
        /\ LET m == Model(T, D)
           IN  Leaves(m) /\ FastIsDefinition(m) /\ Monotone(m) /\ Together(m) /\ ThroughNodes(m) /\ Exist(m)
=============================================================================
