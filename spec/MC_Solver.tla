----------------------------- MODULE MC_Solver -----------------------------
(***************************************************************************)
(* The design of a step, at the granularity of its effects, with a fault   *)
(* possible at each of them: create a temporary file, encode, write, run,  *)
(* read the outcome, remove the file.  Several solver objects share the    *)
(* temporary directory and may overlap.  Checked: the verdict is the one   *)
(* the outcome calls for, every run gets the complete formula of its own   *)
(* step and nobody else touches it, the answer in memory is that of the    *)
(* last satisfying run, and nothing is left behind.                        *)
(***************************************************************************)
EXTENDS Solver, TLC

CONSTANTS Objs, Files, Steps

Codes == {0, 1, SatCode, UnsatCode}
Outcomes == {[k |-> "exit", code |-> c] : c \in Codes} \cup {[k |-> "signal", sig |-> 9], [k |-> "nostart"]}

VARIABLES pc, file, dir, n, outcome, failed, ans, held, lastSat
vars == <<pc, file, dir, n, outcome, failed, ans, held, lastSat>>

None == "none"
Partial == <<"partial">>

Init ==
    /\ pc = [s \in Objs |-> "idle"]
    /\ file = [s \in Objs |-> None]
    /\ dir = <<>>                     \* file -> content, <<owner, step>>
    /\ n = [s \in Objs |-> 0]
    /\ outcome = [s \in Objs |-> [k |-> "nostart"]]
    /\ failed = [s \in Objs |-> FALSE]
    /\ ans = [s \in Objs |-> None]
    /\ held = [s \in Objs |-> 0]
    /\ lastSat = [s \in Objs |-> 0]

Goto(s, l) == pc' = [pc EXCEPT ![s] = l]

Fail(s, l) ==
    /\ failed' = [failed EXCEPT ![s] = TRUE]
    /\ Goto(s, l)

Create(s) ==
    /\ pc[s] = "idle" /\ n[s] < Steps
    /\ n' = [n EXCEPT ![s] = @ + 1]
    /\ ans' = [ans EXCEPT ![s] = None]
    /\ outcome' = [outcome EXCEPT ![s] = [k |-> "nostart"]]
    /\ UNCHANGED <<held, lastSat>>
    /\ \/ /\ failed' = [failed EXCEPT ![s] = TRUE] /\ Goto(s, "report") /\ UNCHANGED <<dir, file>>
       \/ \E f \in Files \ DOMAIN dir :
             /\ dir' = dir @@ (f :> <<>>)
             /\ file' = [file EXCEPT ![s] = f]
             /\ failed' = [failed EXCEPT ![s] = FALSE] /\ Goto(s, "encode")

Encode(s) ==
    /\ pc[s] = "encode"
    /\ UNCHANGED <<file, dir, n, outcome, ans, held, lastSat>>
    /\ \/ Fail(s, "remove")
       \/ Goto(s, "write") /\ UNCHANGED failed

Write(s) ==
    /\ pc[s] = "write"
    /\ UNCHANGED <<file, n, outcome, ans, held, lastSat>>
    /\ \/ Fail(s, "remove") /\ dir' = [dir EXCEPT ![file[s]] = Partial]
       \/ Goto(s, "run") /\ dir' = [dir EXCEPT ![file[s]] = <<s, n[s]>>] /\ UNCHANGED failed

Run(s) ==
    /\ pc[s] = "run"
    /\ \E o \in Outcomes : outcome' = [outcome EXCEPT ![s] = o]
    /\ Goto(s, "remove")
    /\ UNCHANGED <<file, dir, n, failed, ans, held, lastSat>>

Remove(s) ==
    /\ pc[s] = "remove"
    /\ dir' = [f \in DOMAIN dir \ {file[s]} |-> dir[f]]
    /\ file' = [file EXCEPT ![s] = None]
    /\ Goto(s, "report")
    /\ UNCHANGED <<n, outcome, failed, ans, held, lastSat>>

Report(s) ==
    /\ pc[s] = "report"
    /\ ans' = [ans EXCEPT ![s] = Verdict(failed[s], outcome[s])]
    /\ held' = [held EXCEPT ![s] = HeldAfter(@, ans'[s], n[s])]
    /\ lastSat' = [lastSat EXCEPT ![s] =
            IF ~failed[s] /\ outcome[s].k = "exit" /\ outcome[s].code = SatCode THEN n[s] ELSE @]
    /\ Goto(s, "idle")
    /\ UNCHANGED <<file, dir, n, outcome, failed>>

Next == \E s \in Objs : Create(s) \/ Encode(s) \/ Write(s) \/ Run(s) \/ Remove(s) \/ Report(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Definite1 ==
    \A s \in Objs : pc[s] = "idle" /\ n[s] > 0 =>
        /\ (ans[s] = "sat") = (~failed[s] /\ outcome[s].k = "exit" /\ outcome[s].code = SatCode)
        /\ (ans[s] = "unsat") = (~failed[s] /\ outcome[s].k = "exit" /\ outcome[s].code = UnsatCode)
        /\ ans[s] \in {"sat", "unsat", "error"}
OwnFormula == \A s \in Objs : pc[s] = "run" => file[s] \in DOMAIN dir /\ dir[file[s]] = <<s, n[s]>>
Apart == \A s, t \in Objs : s # t /\ file[s] # None => file[s] # file[t]
Clean == (\A s \in Objs : pc[s] = "idle") => dir = <<>>
LastAnswer == \A s \in Objs : held[s] = lastSat[s]
Ends == \A s \in Objs : pc[s] # "idle" ~> pc[s] = "idle"
=============================================================================
