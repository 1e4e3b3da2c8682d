------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* A solver object: it hands formulas to an external SAT solver process    *)
(* and keeps its last satisfying answer.                                   *)
(*                                                                         *)
(* A run of the process ends in some way o:                                *)
(*   [k |-> "exit",   code |-> 0..255]   it exited with that code          *)
(*   [k |-> "signal", sig |-> ...]       it was killed                     *)
(*   [k |-> "nostart"]                   there was no run                  *)
(* and a step may fail before a run, when the query is encoded or the      *)
(* formula written to its file.                                            *)
(***************************************************************************)
EXTENDS Instances

SatCode   == 10
UnsatCode == 20

Verdict(failed, o) ==
    IF failed THEN "error"
    ELSE IF o.k = "exit" /\ o.code = SatCode THEN "sat"
    ELSE IF o.k = "exit" /\ o.code = UnsatCode THEN "unsat"
    ELSE "error"

\* The answer in memory after a step: a definite satisfying one replaces it.
HeldAfter(held, verdict, answer) == IF verdict = "sat" THEN answer ELSE held

(***************************************************************************)
(* Reading.  An answer is the literals the process printed on its value    *)
(* lines (line by line) and the numbering of the instance variables:       *)
(* num[v][i][val + 1] is the number of "variable v has value val on        *)
(* feature i".                                                             *)
(***************************************************************************)
True(ans) == {l \in UNION {{ans.lits[k][j] : j \in DOMAIN ans.lits[k]} : k \in DOMAIN ans.lits} : l > 0}

ValuesAt(ans, T, v, i) == {val \in FeatVals : ans.num[v][i][val + 1] \in T}

\* The answer gives every feature of the variable one value.
Definite(ans, T, v) == \A i \in DOMAIN ans.num[v] : Cardinality(ValuesAt(ans, T, v, i)) = 1

Read(ans, T, v) == [i \in DOMAIN ans.num[v] |-> CHOOSE val \in ValuesAt(ans, T, v, i) : TRUE]
=============================================================================
