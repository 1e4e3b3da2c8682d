----------------------------- MODULE Instances -----------------------------
(***************************************************************************)
(* Partial instances and the relations the query language offers on them.  *)
(*                                                                         *)
(* A partial instance of dimension d is a sequence of d feature values:    *)
(* BOT (undefined), ZERO or ONE.  The numbers are the ones the library     *)
(* uses for its feature values, so recorded instances need no translation. *)
(* Everything here is definitional: no mention of CNF or of the way the    *)
(* library decides the relation.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

BOT  == 0
ZERO == 1
ONE  == 2
FeatVals == {BOT, ZERO, ONE}

Inst(d) == [1..d -> FeatVals]

IsInst(x, d) ==
    /\ Len(x) = d
    /\ \A i \in 1..d : x[i] \in FeatVals

AllBot(d) == [i \in 1..d |-> BOT]

Full(x)     == \A i \in DOMAIN x : x[i] # BOT
Defined(x)  == {i \in DOMAIN x : x[i] # BOT}
BotCount(x) == Cardinality({i \in DOMAIN x : x[i] = BOT})

\* x is subsumed by y: y agrees with x wherever x is defined.
Subsumed(x, y) == \A i \in DOMAIN x : x[i] # BOT => x[i] = y[i]

\* x is at a level less than or equal to y's: at least as many undefined
\* features.
LessEqLevel(x, y) == BotCount(x) >= BotCount(y)

\* x and y do not contradict each other.
Consistent(x, y) ==
    \A i \in DOMAIN x : (x[i] # BOT /\ y[i] # BOT) => x[i] = y[i]

\* The full instances a partial instance stands for.
Completions(x) ==
    {y \in [DOMAIN x -> {ZERO, ONE}] : Subsumed(x, y)}

Hamming(x, y) == Cardinality({i \in DOMAIN x : x[i] # y[i]})

\* Less or equal Hamming distance; a relation between full instances.
LessEqHamming(x, y, z) ==
    /\ Full(x) /\ Full(y) /\ Full(z)
    /\ Hamming(x, y) <= Hamming(x, z)

\* Higher or equal preference rank: look at the first preferred feature
\* (0-based indices, as in the library) that exactly one of the two leaves
\* undefined; x ranks at least as high iff that one is y, or there is none.
HigherEqRank(x, y, pref) ==
    LET Diff == {k \in DOMAIN pref :
                    (x[pref[k] + 1] = BOT) # (y[pref[k] + 1] = BOT)}
    IN  \/ Diff = {}
        \/ LET k == CHOOSE m \in Diff : \A n \in Diff : m <= n
           IN  x[pref[k] + 1] # BOT

ValidPref(pref, d) ==
    /\ \A k \in DOMAIN pref : pref[k] \in 0..(d - 1)
    /\ \A k, m \in DOMAIN pref : pref[k] = pref[m] => k = m
=============================================================================
