---------------------------- MODULE HelpersTrace ----------------------------
(***************************************************************************)
(* Conformance of the helpers on constants.  An event gives constants cs   *)
(* (with identifiers) and what the helpers said about each of them, about  *)
(* every pair, about lists of them and a dimension, and the values of the  *)
(* constants after all the calls.                                          *)
(***************************************************************************)
EXTENDS Instances, TraceBase

Valid(e) == \A k \in DOMAIN e.cs : \A i \in DOMAIN e.cs[k] : e.cs[k][i] \in FeatVals

RECURSIVE Text(_)
Text(x) ==
    IF x = <<>> THEN ""
    ELSE (CASE Head(x) = BOT -> "_" [] Head(x) = ZERO -> "0" [] Head(x) = ONE -> "1") \o Text(Tail(x))

\* What is said about the k-th constant.
OneWhy(e, k) ==
    LET x == e.cs[k]
        o == e.one[k]
    IN  IF o.full # Full(x) THEN "IsFull is wrong for " \o ToString(x)
        ELSE IF o.bots # BotCount(x) THEN "BotCount is wrong for " \o ToString(x)
        ELSE IF o.text # Text(x) THEN "AsString is wrong for " \o ToString(x)
        ELSE IF o.after # x THEN "a helper changed " \o ToString(x)
        ELSE ""

PairWhy(e) ==
    LET n == Len(e.cs)
        W == {p \in (1..n) \X (1..n) :
                LET r == e.pair[(p[1] - 1) * n + p[2]]
                IN  \/ (r.eq = 1) # (e.cs[p[1]] = e.cs[p[2]])
                    \/ (r.text = 1) # (e.cs[p[1]] = e.cs[p[2]])}
    IN  IF Len(e.pair) # n * n THEN "INVALID"
        ELSE IF W = {} THEN ""
        ELSE LET p == CHOOSE p \in W : TRUE
             IN  "equality is wrong for " \o ToString(e.cs[p[1]]) \o " and " \o ToString(e.cs[p[2]])

DimWhy(e) ==
    LET W == {k \in DOMAIN e.dims :
                e.dims[k].err # (\E j \in DOMAIN e.dims[k].ix : Len(e.cs[e.dims[k].ix[j]]) # e.dims[k].d)}
    IN  IF W = {} THEN ""
        ELSE "the dimension check is wrong for " \o ToString(e.dims[CHOOSE k \in W : TRUE])

BotsWhy(e) ==
    LET W == {k \in DOMAIN e.allbot : e.allbot[k].val # AllBot(e.allbot[k].d) \/ ~e.allbot[k].fresh}
    IN  IF W = {} THEN "" ELSE "AllBotConst is wrong in dimension " \o ToString(e.allbot[CHOOSE k \in W : TRUE].d)

Why(e) ==
    IF e.out # "ok" THEN "outcome " \o e.out
    ELSE LET W == {k \in DOMAIN e.cs : OneWhy(e, k) # ""}
         IN  IF W # {} THEN OneWhy(e, CHOOSE k \in W : TRUE)
             ELSE IF PairWhy(e) # "" THEN PairWhy(e)
             ELSE IF DimWhy(e) # "" THEN DimWhy(e)
             ELSE BotsWhy(e)

Init == TraceInit
Next == TraceNext(Valid, Why)
Spec == Init /\ [][Next]_tvars
=============================================================================
