------------------------------ MODULE TraceTotal ------------------------------
(* Totality of the real parser (C01): every run of ClassFile ends in "ok",     *)
(* "err" or "any" (Total and Forward there), so every recorded run has to end  *)
(* in a class or an error, whatever the input, and within its bounds of time   *)
(* and memory: a run that does not is recorded as "panic", "abort" or "hang".  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Outcomes == { "ok", "err" }

VARIABLES run, verdict
Init == run \in 1..Len(Runs) /\ verdict = ""
Judge == /\ verdict = ""
         /\ verdict' = IF Runs[run].r \in Outcomes THEN "accept" ELSE "crash"
         /\ IF verdict' = "accept" THEN TRUE ELSE PrintT("VERDICT " \o ToString(Runs[run].id) \o " crash")
         /\ UNCHANGED run
Spec == Init /\ [][Judge]_<< run, verdict >>
===============================================================================
