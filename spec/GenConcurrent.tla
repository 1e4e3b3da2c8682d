--------------------------- MODULE GenConcurrent ---------------------------
(* Complete schedules of evaluations side by side, one per line. *)
EXTENDS Concurrent, Json, CSV, IOUtils

Out == IOEnv.OUT
Finished == \A p \in Procs : pc[p] = "idle" /\ n[p] = Calls

GenNext ==
    \/ Next
    \/ /\ Finished /\ h # <<>>
       /\ CSVWrite("%1$s", <<ToJson(h)>>, Out)
       /\ h' = <<>>
       /\ UNCHANGED <<pc, n, ctx, dir, file, got, ans>>
GenSpec == Init /\ [][GenNext]_cvars
\* Names are taken in order: which one it is does not matter to a schedule.
Ordered ==
    \A p \in Procs : file'[p] # file[p] /\ file'[p] # None =>
        \A m \in Names : m < file'[p] => m \in DOMAIN dir
=============================================================================
