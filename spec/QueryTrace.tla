---------------------------- MODULE QueryTrace -----------------------------
(***************************************************************************)
(* Conformance of encoded queries with the meaning of the query language.  *)
(* An event records, for one tree and one query, whether the formula the   *)
(* library produced was satisfiable with the free variables gv fixed to    *)
(* given instances (and the constants gc given values): for all values     *)
(* (grid) in canonical order, or for listed pins; or the complete set of   *)
(* satisfying valuations (mode "models"), or those of a variable declared  *)
(* under quantifiers (mode "inner").                                       *)
(***************************************************************************)
EXTENDS Logic, TraceBase

RECURSIVE Pow3(_)
Pow3(n) == IF n = 0 THEN 1 ELSE 3 * Pow3(n - 1)

\* The k-th instance of dimension d (k counts from 0).
InstAt(k, d) == [i \in 1..d |-> (k \div Pow3(i - 1)) % 3]

NameSet(s) == {s[i] : i \in DOMAIN s}
IndexOf(s, n) == CHOOSE i \in DOMAIN s : s[i] = n

\* The values of the names in s encoded by the number k.
Decode(s, k, d) ==
    [n \in NameSet(s) |-> InstAt((k \div Pow3(d * (IndexOf(s, n) - 1))) % Pow3(d), d)]

\* For the admissibility of a query the constants in gc count as bound.
Valid(e) ==
    LET M == Model(e.tree, e.d)
    IN  /\ e.out \in {"ok", "err", "panic"} => WellFormedTree(e.tree, e.d)
        /\ e.out \in {"ok", "err", "panic"} =>
             WellFormedQ(e.q, <<>>, NameSet(e.gc), 0, FALSE, M)

GridWhy(e, M) ==
    LET nv == Pow3(e.d * Len(e.gv))
        nc == Pow3(e.d * Len(e.gc))
        Wrong == {k \in 0..(nv * nc - 1) :
                    (e.obs[k + 1] = 1) #
                      Holds(e.q, Decode(e.gv, k % nv, e.d), Decode(e.gc, k \div nv, e.d), M)}
    IN  IF Len(e.obs) # nv * nc THEN "INVALID"
        ELSE IF Wrong = {} THEN ""
        ELSE LET k == CHOOSE k \in Wrong : TRUE
             IN  "truth value wrong for " \o ToString(<<Decode(e.gv, k % nv, e.d), Decode(e.gc, k \div nv, e.d)>>)
                    \o ": library says " \o ToString(e.obs[k + 1])

PinsWhy(e, M) ==
    LET Wrong == {k \in DOMAIN e.pins :
                    (e.obs[k] = 1) # Holds(e.q, e.pins[k].vs, e.pins[k].cs, M)}
    IN  IF Len(e.obs) # Len(e.pins) THEN "INVALID"
        ELSE IF Wrong = {} THEN ""
        ELSE LET k == CHOOSE k \in Wrong : TRUE
             IN  "truth value wrong for " \o ToString(e.pins[k]) \o ": library says " \o ToString(e.obs[k])

\* A valuation gives for each variable the values true on each feature.
OneEach(v, d) == Len(v) = d /\ \A i \in 1..d : Len(v[i]) = 1
AsInst(v) == [i \in DOMAIN v |-> v[i][1]]

ModelsWhy(e, M) ==
    LET Seen == {e.models[k] : k \in DOMAIN e.models}
        Ns   == NameSet(e.gv)
        nv   == Pow3(e.d * Len(e.gv))
        Want == {Decode(e.gv, k, e.d) : k \in {j \in 0..(nv - 1) : Holds(e.q, Decode(e.gv, j, e.d), <<>>, M)}}
    IN  IF \E m \in Seen, n \in Ns : ~OneEach(m[n], e.d)
        THEN "a valuation gives a variable not exactly one value per feature"
        ELSE IF {[n \in Ns |-> AsInst(m[n])] : m \in Seen} # Want
        THEN "the satisfying valuations are not the satisfying instances"
        ELSE ""

InnerWhy(e, M) ==
    LET Copies == {k \in DOMAIN e.inner : TRUE}
    IN  IF \E k \in Copies : \E j \in DOMAIN e.inner[k] : ~OneEach(e.inner[k][j].y, e.d)
        THEN "a valuation gives an inner variable not exactly one value per feature"
        ELSE IF \E k \in Copies : {AsInst(e.inner[k][j].y) : j \in DOMAIN e.inner[k]} # Inst(e.d)
        THEN "an unconstrained inner variable cannot take every value"
        ELSE IF Cardinality(Copies) # e.copies
        THEN "an inner variable does not have one copy per node"
        ELSE ""

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE LET M == Model(e.tree, e.d)
         IN  CASE e.mode = "models" -> ModelsWhy(e, M)
               [] e.mode = "inner"  -> InnerWhy(e, M)
               [] e.grid            -> GridWhy(e, M)
               [] OTHER             -> PinsWhy(e, M)

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
