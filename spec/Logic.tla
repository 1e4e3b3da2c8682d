------------------------------- MODULE Logic -------------------------------
(***************************************************************************)
(* The query language and its meaning.                                     *)
(*                                                                         *)
(* Formulas are records with a field op.  Terms are either variables,      *)
(* [k |-> "v", n |-> name], or constants, [k |-> "c", n |-> id, x |-> val],*)
(* where a constant whose id is the target of an enclosing guarded         *)
(* quantifier stands for the node that quantifier is visiting.             *)
(*                                                                         *)
(* Holds(q, vs, cs, M): q is satisfiable over the analysed model M when the*)
(* variables in DOMAIN vs have the values given there and the guarded      *)
(* constants in DOMAIN cs theirs.  A declaration of a variable that has no *)
(* value yet is an existential quantifier; declaring a variable again is a *)
(* no-op (names identify variables).  The library only answers             *)
(* satisfiability questions, so declarations may not occur below a         *)
(* negation: WellFormedQ says so.                                          *)
(***************************************************************************)
EXTENDS DTree, TLC

Value(t, vs, cs) ==
    IF t.k = "v" THEN vs[t.n]
    ELSE IF t.n \in DOMAIN cs THEN cs[t.n] ELSE t.x

AtomHolds(q, a, M) ==
    CASE q.op = "sub"     -> Subsumed(a[1], a[2])
      [] q.op = "lel"     -> LessEqLevel(a[1], a[2])
      [] q.op = "cons"    -> Consistent(a[1], a[2])
      [] q.op = "full"    -> Full(a[1])
      [] q.op = "hepr"    -> HigherEqRank(a[1], a[2], q.pref)
      [] q.op = "leh"     -> LessEqHamming(a[1], a[2], a[3])
      [] q.op = "isnode"  -> IsNode(M, a[1])
      [] q.op = "allcomp" -> AllComp(M, a[1], q.lv)
      [] q.op = "dfs"     -> DetFeatSet(M, a[1])
      \* a component written by the user: clauses over feature values
      [] q.op = "cls"     ->
            \A k \in DOMAIN q.cl : \E m \in DOMAIN q.cl[k] :
                LET l == q.cl[k][m] IN (a[l.t][l.i] = l.val) = l.pos

Connectives == {"and", "or", "not", "true", "false", "with", "fag"}

\* Values worth trying first: those around, and completions of them.  (This
\* changes no meaning; it saves TLC from searching all instances.)
Near(vs, cs) ==
    LET S == {vs[n] : n \in DOMAIN vs} \cup {cs[n] : n \in DOMAIN cs}
    IN  S \cup {[i \in DOMAIN x |-> IF x[i] = BOT THEN ZERO ELSE x[i]] : x \in S}

RECURSIVE Holds(_, _, _, _)
Holds(q, vs, cs, M) ==
    CASE q.op = "and"   -> Holds(q.a, vs, cs, M) /\ Holds(q.b, vs, cs, M)
      [] q.op = "or"    -> Holds(q.a, vs, cs, M) \/ Holds(q.b, vs, cs, M)
      [] q.op = "not"   -> ~Holds(q.a, vs, cs, M)
      [] q.op = "true"  -> TRUE
      [] q.op = "false" -> FALSE
      [] q.op = "with"  ->
            IF q.v \in DOMAIN vs
            THEN Holds(q.a, vs, cs, M)
            ELSE \/ M.d > 4 /\ \E x \in Near(vs, cs) : Holds(q.a, vs @@ (q.v :> x), cs, M)
                 \/ \E x \in Inst(M.d) : Holds(q.a, vs @@ (q.v :> x), cs, M)
      [] q.op = "fag"   ->
            \A x \in M.nodes : Holds(q.a, vs, (q.c :> x) @@ cs, M)
      [] OTHER          ->
            AtomHolds(q, [i \in DOMAIN q.t |-> Value(q.t[i], vs, cs)], M)

(***************************************************************************)
(* Which queries the language admits.  Names identify variables: a name is *)
(* declared on one branch of a connective only, unless an enclosing        *)
(* declaration in the same or an enclosing quantifier already made it.     *)
(* vs maps declared variables to the number of quantifiers open at their   *)
(* declaration, cs is the set of bound constants, k the number of open     *)
(* quantifiers, neg whether a negation is open.                            *)
(***************************************************************************)
RECURSIVE Declared(_)
Declared(q) ==
    CASE q.op \in {"and", "or"} -> Declared(q.a) \cup Declared(q.b)
      [] q.op \in {"not", "fag"} -> Declared(q.a)
      [] q.op = "with" -> {q.v} \cup Declared(q.a)
      [] OTHER -> {}

RECURSIVE WellFormedQ(_, _, _, _, _, _)
WellFormedQ(q, vs, cs, k, neg, M) ==
    CASE q.op \in {"and", "or"} ->
            /\ Declared(q.a) \cap Declared(q.b) \subseteq DOMAIN vs
            /\ WellFormedQ(q.a, vs, cs, k, neg, M)
            /\ WellFormedQ(q.b, vs, cs, k, neg, M)
      [] q.op = "not"   -> WellFormedQ(q.a, vs, cs, k, TRUE, M)
      [] q.op \in {"true", "false"} -> TRUE
      [] q.op = "with"  ->
            /\ ~neg
            /\ q.v \in DOMAIN vs => vs[q.v] > 0 \/ k = 0
            /\ WellFormedQ(q.a, vs @@ (q.v :> k), cs, k, neg, M)
      [] q.op = "fag"   ->
            M.nodes # {} /\ WellFormedQ(q.a, vs, cs \cup {q.c}, k + 1, neg, M)
      [] OTHER          ->
            /\ \A i \in DOMAIN q.t :
                  IF q.t[i].k = "v" THEN q.t[i].n \in DOMAIN vs
                  ELSE q.t[i].n \in cs \/ IsInst(q.t[i].x, M.d)
            /\ q.op = "hepr" => ValidPref(q.pref, M.d)
            /\ q.op \in {"isnode", "allcomp", "dfs"} => M.nodes # {}
            /\ q.op = "cls" => \A i \in DOMAIN q.t : q.t[i].k = "v"
=============================================================================
