--------------------------------- MODULE Emit ---------------------------------
(* Writes the inputs of every bounded environment out, without exploring them: *)
(* for the properties that speak about all inputs, whatever they are about.    *)
EXTENDS Inputs, TLC, Json, IOUtils

Envs == << "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C23" >>
ASSUME \A i \in 1..Len(Envs) :
  ndJsonSerialize(IOEnv.OUT \o "." \o Envs[i], LET s == SetToSeq(CasesFor(Envs[i])) IN [ k \in 1..Len(s) |-> [ b |-> s[k] ] ])

VARIABLE done
Spec == done = TRUE /\ [][FALSE]_done
===============================================================================
