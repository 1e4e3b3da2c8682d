------------------------------ MODULE MC_Names ------------------------------
(***************************************************************************)
(* Internal names may be made by writing a position down with a separator  *)
(* that occurs in no name: every two positions then read differently, even *)
(* when names, targets and indices look like parts of each other.  One     *)
(* initial state per pair of positions.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Alphabet, MaxLen, MaxDepth
SEP == 0
Words == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Digit == [i \in 0..11 |-> IF i < 10 THEN <<i + 1>> ELSE <<2, i - 9>>]
Steps == Words \X {0, 1, 10}
Paths == UNION {[1..n -> Steps] : n \in 0..MaxDepth}

VARIABLES v, p
RECURSIVE Render(_, _)
Render(w, q) ==
    IF q = <<>> THEN w
    ELSE Render(w \o <<SEP>> \o q[1][1] \o <<SEP>> \o Digit[q[1][2]], Tail(q))

\* Reading a name back: cut it at the separators.
RECURSIVE Cut(_, _)
Cut(s, cur) ==
    IF s = <<>> THEN <<cur>>
    ELSE IF s[1] = SEP THEN <<cur>> \o Cut(Tail(s), <<>>)
    ELSE Cut(Tail(s), Append(cur, s[1]))

Init == v \in Words /\ p \in Paths
Next == UNCHANGED <<v, p>>
Spec == Init /\ [][Next]_<<v, p>>

Readable ==
    LET c == Cut(Render(v, p), <<>>)
    IN  /\ c[1] = v
        /\ Len(c) = 1 + 2 * Len(p)
        /\ \A k \in 1..Len(p) : c[2 * k] = p[k][1] /\ c[2 * k + 1] = Digit[p[k][2]]
=============================================================================
