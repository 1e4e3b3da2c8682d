------------------------------ MODULE Explain ------------------------------
(***************************************************************************)
(* Explanations of decisions, by definition: for a tree (an analysed model *)
(* M) and the parameters p of a question -- the instance p.c explained, a  *)
(* second instance p.c2, a class p.k, a preference p.pref, a set of        *)
(* features p.fs (0-based), a number p.n -- which partial instances are    *)
(* explanations of a kind, which ones are better than others, and which    *)
(* statements about the decision hold.  Nothing here mentions the queries  *)
(* that compute them.                                                      *)
(***************************************************************************)
EXTENDS DTree, TLC

SmallDim == 3

AC(M, x, k) == IF M.d <= SmallDim THEN AllCompDef(M.T, x, k) ELSE AllComp(M, x, k)
DF(M, x)    == IF M.d <= SmallDim THEN DFSDef(M.T, x) ELSE DetFeatSet(M, x)
ND(M, x)    == IsNodeDef(M.T, M.d, x)
Cl(M, x)    == Classify(M.T, x)

\* x is a sufficient reason for the class of c: part of c, and enough to
\* determine the class c determines.
SR(M, c, x) == Subsumed(x, c) /\ \A k \in BOOLEAN : AC(M, c, k) => AC(M, x, k)

Explains(kind, M, p, x) ==
    CASE kind = "sr"        -> SR(M, p.c, x)
      [] kind = "dfs"       -> DF(M, x)
      [] kind = "dfsin"     -> Subsumed(x, p.c) /\ DF(M, x)
      [] kind = "class"     -> AC(M, x, p.k)
      [] kind = "viaNodes"  -> AC(M, x, p.k)
      [] kind = "cf"        -> Full(x) /\ Cl(M, x) # Cl(M, p.c)
      [] kind = "same"      -> Full(x) /\ Cl(M, x) = Cl(M, p.c)
      [] kind = "cfkeep"    -> Full(x) /\ Subsumed(p.c2, x) /\ Cl(M, x) # Cl(M, p.c)
      [] kind = "node"      -> Subsumed(x, p.c) /\ ND(M, x)
      [] kind = "undecided" -> Subsumed(x, p.c) /\ ~AC(M, x, TRUE) /\ ~AC(M, x, FALSE)

\* First feature of the preference that only one of the two defines.
Prefers(pref, x, y) ==
    LET D == {k \in DOMAIN pref : (x[pref[k] + 1] = BOT) # (y[pref[k] + 1] = BOT)}
    IN  D # {} /\ LET k == CHOOSE m \in D : \A n \in D : m <= n IN x[pref[k] + 1] # BOT

Better(order, p, x, y) ==
    CASE order = "smaller" -> Subsumed(x, y) /\ x # y
      [] order = "larger"  -> Subsumed(y, x) /\ x # y
      [] order = "fewer"   -> BotCount(x) > BotCount(y)
      [] order = "more"    -> BotCount(x) < BotCount(y)
      [] order = "prefers" -> Prefers(p.pref, x, y)
      [] order = "avoids"  -> Prefers(p.pref, y, x)
      [] order = "fewerThenPrefers" ->
            \/ BotCount(x) > BotCount(y)
            \/ BotCount(x) = BotCount(y) /\ Prefers(p.pref, x, y)
      [] order = "nearer"  -> Hamming(p.c, x) < Hamming(p.c, y)
      [] order = "farther" -> Hamming(p.c, x) > Hamming(p.c, y)

FullInst(d) == [1..d -> {ZERO, ONE}]

\* Statements about the decision that an evaluation answers.
States(what, M, p) ==
    CASE what = "minimalSR" ->
            SR(M, p.c, p.c2) /\ ~\E y \in Inst(M.d) : SR(M, p.c, y) /\ Subsumed(y, p.c2) /\ y # p.c2
      [] what = "minimumSR" ->
            SR(M, p.c, p.c2) /\ ~\E y \in Inst(M.d) : SR(M, p.c, y) /\ BotCount(y) > BotCount(p.c2)
      [] what = "minimumDFS" ->
            DF(M, p.c) /\ ~\E y \in Inst(M.d) : DF(M, y) /\ BotCount(y) > BotCount(p.c)
      [] what = "smallSR" -> \E x \in Inst(M.d) : SR(M, p.c, x) /\ BotCount(x) >= p.n
      [] what = "needed" -> \A x \in Inst(M.d) : SR(M, p.c, x) => \A f \in p.fs : x[f + 1] # BOT
      [] what = "biased" ->
            \E x, y \in FullInst(M.d) :
                /\ Cl(M, x) # Cl(M, y)
                /\ \A i \in 1..M.d : (i - 1) \notin p.fs => x[i] = y[i]
      [] what = "readme" -> \E x \in Inst(M.d) : ~Full(x) /\ AC(M, x, p.k)
      [] what = "nodesMixed" -> \* no node short of a leaf decides the class
            \A x \in M.nodes : (AC(M, x, TRUE) \/ AC(M, x, FALSE)) => x \in M.pos \cup M.neg
      [] what = "constant" -> \E k \in BOOLEAN : AC(M, AllBot(M.d), k)

\* The witness an evaluation gives.
Witness(what, M, p, w) ==
    CASE what = "readme" -> ~Full(w[1]) /\ AC(M, w[1], p.k)
      [] what = "smallSR" -> SR(M, p.c, w[1]) /\ BotCount(w[1]) >= p.n
      [] what = "biased" ->
            /\ Full(w[1]) /\ Full(w[2]) /\ Cl(M, w[1]) # Cl(M, w[2])
            /\ \A i \in 1..M.d : (i - 1) \notin p.fs => w[1][i] = w[2][i]
=============================================================================
