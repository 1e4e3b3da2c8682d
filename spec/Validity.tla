------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* Which input the library has to refuse.                                  *)
(*                                                                         *)
(* Status(q, cs, vs, T, d) is "err" if encoding the query q over the nodes *)
(* T in dimension d has to fail, "ok" if it has to succeed, and "any" where*)
(* neither is demanded (a defect of the tree that nothing needs to look at,*)
(* a variable nobody declared).  cs is the set of constants bound by open  *)
(* quantifiers, vs the set of variables declared so far.  Queries may have *)
(* a missing operand, [op |-> "nil"], and missing naming functions, field  *)
(* no.                                                                     *)
(***************************************************************************)
EXTENDS Logic

Worst(S) == IF "err" \in S THEN "err" ELSE IF "any" \in S THEN "any" ELSE "ok"

\* ------------------------------------------------------- naming functions
VarsOf(q) == {i \in DOMAIN q.t : q.t[i].k = "v"}

Needs(q) ==
    IF VarsOf(q) = {} THEN {}
    ELSE CASE q.op = "lel" -> {"count"}
           [] q.op = "hepr" -> {"rank"}
           [] q.op \in {"isnode", "allcomp"} -> {"reach"}
           [] q.op = "leh" ->
                {"hd"} \cup (IF 1 \in VarsOf(q) /\ Cardinality(VarsOf(q)) > 1 THEN {"ef"} ELSE {})
           [] OTHER -> {}

Lacks(q) == IF "no" \in DOMAIN q THEN {q.no[i] : i \in DOMAIN q.no} ELSE {}

\* ------------------------------------------------------------------ trees
InRange(k, T) == k \in 0..(Len(T) - 1)

\* What a node in use may name wrongly.
BadNode(n, d, T) == ~NodeOK(n, d, Len(T))

RECURSIVE ReachFrom(_, _, _)
ReachFrom(T, S, fuel) ==
    LET Next == S \cup UNION {{T[u].z + 1, T[u].o + 1} \cap DOMAIN T : u \in {u \in S : ~IsLeaf(T[u])}}
    IN  IF fuel = 0 \/ Next = S THEN S ELSE ReachFrom(T, Next, fuel - 1)

Reachable(T) == IF Len(T) = 0 THEN {} ELSE ReachFrom(T, {1}, Len(T))

TreeStatus(T, d) ==
    IF Len(T) = 0 THEN "err"
    ELSE IF \E u \in Reachable(T) : BadNode(T[u], d, T) THEN "err"
    ELSE IF \E u \in DOMAIN T : BadNode(T[u], d, T) THEN "any"
    ELSE "ok"

\* The walk of a constant down the tree, for "is a node": does it meet a
\* defect?
RECURSIVE PathMeets(_, _, _, _)
PathMeets(T, u, x, d) ==
    IF IsLeaf(T[u]) THEN FALSE
    ELSE IF T[u].f \notin 0..(d - 1) THEN TRUE
    ELSE IF x[T[u].f + 1] = BOT THEN FALSE
    ELSE LET k == IF x[T[u].f + 1] = ZERO THEN T[u].z ELSE T[u].o
         IN  IF ~InRange(k, T) THEN TRUE ELSE PathMeets(T, k + 1, x, d)

\* The nodes some completion of a constant reaches.
RECURSIVE Visits(_, _, _, _)
Visits(T, u, x, d) ==
    {u} \cup
    (IF IsLeaf(T[u]) \/ T[u].f \notin 0..(d - 1) THEN {}
     ELSE LET v  == x[T[u].f + 1]
              Ks == (IF v = ONE THEN {} ELSE {T[u].z}) \cup (IF v = ZERO THEN {} ELSE {T[u].o})
          IN  UNION {Visits(T, k + 1, x, d) : k \in {k \in Ks : InRange(k, T)}})

MeetsAt(T, u, x, d) ==
    /\ ~IsLeaf(T[u])
    /\ \/ T[u].f \notin 0..(d - 1)
       \/ x[T[u].f + 1] # ONE /\ ~InRange(T[u].z, T)
       \/ x[T[u].f + 1] # ZERO /\ ~InRange(T[u].o, T)

Either(T, d) == IF TreeStatus(T, d) = "ok" THEN "ok" ELSE "any"

\* Constants bound by a quantifier are instances of nodes of the tree; which
\* ones is not needed, because a defect in reach already stops the quantifier.
ConstTree(q, cs, T, d) ==
    IF Len(T) = 0 THEN "err"
    ELSE LET c == q.t[1]
         IN  CASE q.op = "dfs" -> TreeStatus(T, d)
               [] q.op \in {"isnode", "allcomp"} /\ c.n \in cs -> Either(T, d)
               [] q.op = "isnode" /\ c.n \notin cs ->
                     IF PathMeets(T, 1, c.x, d) THEN "err" ELSE Either(T, d)
               [] q.op = "allcomp" /\ c.n \notin cs ->
                     LET V == Visits(T, 1, c.x, d)
                     IN  IF \E u \in V : IsLeaf(T[u]) /\ T[u].v # q.lv THEN Either(T, d)
                         ELSE IF \E u \in V : MeetsAt(T, u, c.x, d) THEN "err"
                         ELSE Either(T, d)

\* ------------------------------------------------------------- components
AtomStatus(q, cs, vs, T, d) ==
    LET Consts == {i \in DOMAIN q.t : q.t[i].k = "c" /\ q.t[i].n \notin cs}
    IN  IF \E i \in Consts : Len(q.t[i].x) # d THEN "err"
        ELSE IF Needs(q) \cap Lacks(q) # {} THEN "err"
        ELSE IF q.op = "hepr" /\ ~ValidPref(q.pref, d) THEN "err"
        ELSE Worst({IF \E i \in VarsOf(q) : q.t[i].n \notin vs THEN "any" ELSE "ok",
                    IF q.op \notin {"isnode", "allcomp", "dfs"} THEN "ok"
                    ELSE IF VarsOf(q) # {} THEN TreeStatus(T, d)
                    ELSE ConstTree(q, cs, T, d)})

RECURSIVE Status(_, _, _, _, _)
Status(q, cs, vs, T, d) ==
    CASE q.op = "nil" -> "err"
      [] q.op \in {"true", "false"} -> "ok"
      [] q.op \in {"and", "or"} ->
            Worst({Status(q.a, cs, vs, T, d), Status(q.b, cs, vs, T, d)})
      [] q.op = "not"  -> Status(q.a, cs, vs, T, d)
      [] q.op = "with" -> Status(q.a, cs, vs \cup {q.v}, T, d)
      [] q.op = "fag"  ->
            IF TreeStatus(T, d) = "ok"
            THEN Status(q.a, cs \cup {q.c}, vs, T, d)
            ELSE Worst({TreeStatus(T, d), Status(q.a, cs \cup {q.c}, vs, T, d)})
      [] OTHER -> AtomStatus(q, cs, vs, T, d)
=============================================================================
