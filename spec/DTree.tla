------------------------------- MODULE DTree -------------------------------
(***************************************************************************)
(* Decision trees as the library receives them: a sequence of nodes whose  *)
(* first element is the root.  An internal node decides feature f (0-based)*)
(* and names its zero and one child by position (0-based); a node without  *)
(* both children is a leaf with a classification v.                        *)
(***************************************************************************)
EXTENDS Instances

IsLeaf(n) == n.z < 0 \/ n.o < 0

Leaf(v)        == [v |-> v, f |-> 0, z |-> -1, o |-> -1]
Inner(f, z, o) == [v |-> FALSE, f |-> f, z |-> z, o |-> o]

\* A node the library has to refuse.
NodeOK(n, d, len) ==
    \/ IsLeaf(n)
    \/ /\ n.f \in 0..(d - 1)
       /\ n.z \in 0..(len - 1)
       /\ n.o \in 0..(len - 1)

(* Every pair <<node, instance>> below node u, where the instance records  *)
(* the decisions that lead to the node and is undefined elsewhere.         *)
RECURSIVE Below(_, _, _)
Below(T, u, x) ==
    {<<u, x>>} \cup
    (IF IsLeaf(T[u]) THEN {}
     ELSE Below(T, T[u].z + 1, [x EXCEPT ![T[u].f + 1] = ZERO])
             \cup
          Below(T, T[u].o + 1, [x EXCEPT ![T[u].f + 1] = ONE]))

(* A proper decision tree of dimension d: children exist, the root has no  *)
(* parent and every other node exactly one, everything hangs from the root *)
(* and no path decides the same feature twice.                             *)
RECURSIVE ReadOnce(_, _, _, _)
ReadOnce(T, u, seen, fuel) ==
    \/ IsLeaf(T[u])
    \/ /\ fuel > 0
       /\ T[u].f \notin seen
       /\ ReadOnce(T, T[u].z + 1, seen \cup {T[u].f}, fuel - 1)
       /\ ReadOnce(T, T[u].o + 1, seen \cup {T[u].f}, fuel - 1)

WellFormedTree(T, d) ==
    /\ Len(T) > 0
    /\ \A u \in DOMAIN T : NodeOK(T[u], d, Len(T))
    /\ LET Inn  == {u \in DOMAIN T : ~IsLeaf(T[u])}
           Kids == [u \in Inn |-> {T[u].z + 1, T[u].o + 1}]
       IN  /\ \A u \in Inn : T[u].z # T[u].o /\ 1 \notin Kids[u]
           /\ Cardinality(UNION {Kids[u] : u \in Inn}) = 2 * Cardinality(Inn)
           /\ Len(T) = 2 * Cardinality(Inn) + 1
           /\ ReadOnce(T, 1, {}, Len(T))

NodeInsts(T, d) == {p[2] : p \in Below(T, 1, AllBot(d))}

RECURSIVE ClassFrom(_, _, _)
ClassFrom(T, u, x) ==
    IF IsLeaf(T[u]) THEN T[u].v
    ELSE IF x[T[u].f + 1] = ZERO THEN ClassFrom(T, T[u].z + 1, x)
    ELSE ClassFrom(T, T[u].o + 1, x)

Classify(T, x) == ClassFrom(T, 1, x)

(***************************************************************************)
(* The three tree predicates, by definition.                               *)
(***************************************************************************)
IsNodeDef(T, d, x) == \E p \in Below(T, 1, AllBot(d)) : p[2] = x

AllCompDef(T, x, c) == \A y \in Completions(x) : Classify(T, y) = c

SameShape(x) == {y \in Inst(Len(x)) : Defined(y) = Defined(x)}

DFSDef(T, x) ==
    \A y \in SameShape(x) :
        \A a, b \in Completions(y) : Classify(T, a) = Classify(T, b)

(***************************************************************************)
(* The same predicates through the leaves of the tree, so that they can be *)
(* evaluated on trees of any dimension.  MC_Theory checks that they agree  *)
(* with the definitions on every small tree.                               *)
(* An "analysed model" M carries the dimension, the nodes and what the     *)
(* predicates need to know about them.                                     *)
(***************************************************************************)
Model(T, d) ==
    IF Len(T) = 0
    THEN [d |-> d, T |-> T, nodes |-> {}, pos |-> {}, neg |-> {}]
    ELSE LET P == Below(T, 1, AllBot(d))
         IN  [d     |-> d,
              T     |-> T,
              nodes |-> {p[2] : p \in P},
              pos   |-> {p[2] : p \in {r \in P : IsLeaf(T[r[1]]) /\ T[r[1]].v}},
              neg   |-> {p[2] : p \in {r \in P : IsLeaf(T[r[1]]) /\ ~T[r[1]].v}}]

IsNode(M, x) == x \in M.nodes

AllComp(M, x, c) ==
    \A l \in (IF c THEN M.neg ELSE M.pos) : ~Consistent(l, x)

DetFeatSet(M, x) ==
    \A p \in M.pos, n \in M.neg :
        \E i \in 1..M.d :
            x[i] # BOT /\ p[i] # BOT /\ n[i] # BOT /\ p[i] # n[i]
=============================================================================
