----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Evaluations side by side.  Every evaluation has its own context and its *)
(* own solver object and makes a number of calls; what they share is the   *)
(* library, the models and the temporary directory.  A call is cut where   *)
(* the outside can see or delay it: the query is being encoded (open),     *)
(* the solver process has started, has read its file, has ended.           *)
(*                                                                         *)
(* h is the schedule: the sequence of [p, to] that led here.  Schedules    *)
(* made by TLC from this specification are imposed on the real library.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Calls, Names

VARIABLES pc, n, ctx, dir, file, got, ans, h
cvars == <<pc, n, ctx, dir, file, got, ans, h>>

None == 0  \* names are positive numbers

Init ==
    /\ pc   = [p \in Procs |-> "idle"]
    /\ n    = [p \in Procs |-> 0]
    /\ ctx  = [p \in Procs |-> <<>>]       \* what the context went through
    /\ dir  = <<>>                         \* file -> formula
    /\ file = [p \in Procs |-> None]
    /\ got  = [p \in Procs |-> <<>>]       \* what the solver process read
    /\ ans  = [p \in Procs |-> <<>>]
    /\ h    = <<>>

\* The formula of a call depends on the evaluation, on the call and on what
\* its own context went through before.
Formula(p, k) == <<p, ctx[p], k>>
Answer(f) == <<"answer to", f>>

To(p, l) == pc' = [pc EXCEPT ![p] = l]
Log(p, l) == h' = Append(h, [p |-> p, to |-> l])

Enc(p) ==
    /\ pc[p] = "idle" /\ n[p] < Calls
    /\ n' = [n EXCEPT ![p] = @ + 1]
    /\ To(p, "enc") /\ Log(p, "enc")
    /\ UNCHANGED <<ctx, dir, file, got, ans>>

Start(p) ==
    /\ pc[p] = "enc"
    /\ ctx' = [ctx EXCEPT ![p] = Append(@, n[p])]
    /\ \E f \in Names \ DOMAIN dir :
          /\ dir' = dir @@ (f :> Formula(p, n[p]))
          /\ file' = [file EXCEPT ![p] = f]
    /\ To(p, "start") /\ Log(p, "start")
    /\ UNCHANGED <<n, got, ans>>

Read(p) ==
    /\ pc[p] = "start"
    /\ got' = [got EXCEPT ![p] = dir[file[p]]]
    /\ To(p, "read") /\ Log(p, "read")
    /\ UNCHANGED <<n, ctx, dir, file, ans>>

Done(p) ==
    /\ pc[p] = "read"
    /\ ans' = [ans EXCEPT ![p] = Append(@, Answer(got[p]))]
    /\ dir' = [f \in DOMAIN dir \ {file[p]} |-> dir[f]]
    /\ file' = [file EXCEPT ![p] = None]
    /\ To(p, "idle") /\ Log(p, "done")
    /\ UNCHANGED <<n, ctx, got>>

Step(p) == Enc(p) \/ Start(p) \/ Read(p) \/ Done(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_cvars /\ \A p \in Procs : WF_cvars(Step(p))

-----------------------------------------------------------------------------
\* What an evaluation would answer alone.
RECURSIVE UpTo(_)
UpTo(k) == IF k = 0 THEN <<>> ELSE Append(UpTo(k - 1), k)
Alone(p, k) == [j \in 1..k |-> Answer(<<p, UpTo(j - 1), j>>)]

AsAlone == \A p \in Procs : ans[p] = Alone(p, Len(ans[p]))
Apart   == \A p, q \in Procs : p # q /\ file[p] # None => file[p] # file[q]
Clean   == (\A p \in Procs : pc[p] = "idle") => dir = <<>>
AllEnd  == <>(\A p \in Procs : pc[p] = "idle" /\ n[p] = Calls)

View == <<pc, n, ctx, dir, file, got, ans>>
=============================================================================
