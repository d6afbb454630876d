----------------------------- MODULE MC_ClassFile -----------------------------
(* The class file machine on every input of a bounded environment: checks the  *)
(* design (invariants and properties of ClassFile) and writes the inputs out   *)
(* with the outcome specified for each, for replay into the real parser.       *)
EXTENDS ClassFile, Json, IOUtils

CONSTANTS Env,     \* the property whose environment is explored
          Deep     \* TRUE: the larger environment
I == INSTANCE Inputs
Cases == I!SetToSeq(I!CasesFor(Env))
CaseBytes(i) == Cases[i]

ASSUME ndJsonSerialize(IOEnv.OUT, [ i \in 1..Len(Cases) |-> [ id |-> i, b |-> Cases[i] ] ])

MInit == src \in 1..Len(Cases) /\ m = Init0
MNext == Next /\ (m'.st = "run" \/ PrintT(<< "OUT", src, IF m'.lax THEN "lax" ELSE m'.st, m'.e >>))
MSpec == MInit /\ [][MNext]_<< src, m >>
==============================================================================
