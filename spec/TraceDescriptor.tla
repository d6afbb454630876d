--------------------------- MODULE TraceDescriptor ---------------------------
(* Are recorded descriptor parses and prints what Descriptor specifies?        *)
(* A run: kind "T"/"M" parsed the text t; "D"/"E" printed the value parts.     *)
(* Judge says which part is compared: "parse", "print" or "all".               *)
EXTENDS Descriptor, SequencesExt, TLC, Json, IOUtils

CONSTANT Judged
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, d, verdict
R == Runs[run]
KindOf(r) == IF r.kind \in { "T", "D" } THEN "T" ELSE "M"
Texts == [ i \in 1..Len(Runs) |-> IF Runs[i].kind \in { "T", "M" } THEN <<>> \o Runs[i].t
                                  ELSE <<>> \o Render(KindOf(Runs[i]), Runs[i].parts) ]
Text == Texts[run]

Init == run \in 1..Len(Runs) /\ pos = 0 /\ d = Start(KindOf(R)) /\ verdict = ""

Printed == R.disp = Text /\ R.again = 1
Verdict ==
  IF R.kind \in { "D", "E" }
  THEN IF R.r # "ok" THEN "crash"
       ELSE IF ~Printed THEN "wrong-print"
       ELSE IF ~Accepts(d) \/ d.parts # R.parts THEN "bad-value" ELSE "accept"
  ELSE IF R.r \notin { "ok", "err" } THEN "crash"
  ELSE IF Judged = "print" THEN IF R.r = "ok" /\ ~Printed THEN "wrong-print" ELSE "accept"
  ELSE IF Accepts(d)
       THEN IF R.r # "ok" THEN "refused" ELSE IF R.p # d.parts THEN "wrong-meaning"
            ELSE IF Judged = "all" /\ ~Printed THEN "wrong-print" ELSE "accept"
       ELSE IF R.r # "err" THEN "accepted"
            ELSE IF R.desc # Text \/ R.at < 0 \/ R.at > Len(Text) THEN "wrong-error" ELSE "accept"

(* the rest of a name in one step *)
NameEnd == LET q == SelectInSubSeq(Text, pos + 1, Len(Text), LAMBDA c : c = Semi) IN IF q = 0 THEN Len(Text) ELSE q - 1
Name == /\ verdict = "" /\ pos < Len(Text) /\ d.mode = "name" /\ Text[pos + 1] # Semi
        /\ LET q == NameEnd IN d' = ReadRun(d, SubSeq(Text, pos + 1, q)) /\ pos' = q
        /\ UNCHANGED << run, verdict >>
Step == /\ verdict = "" /\ pos < Len(Text) /\ (d.mode # "name" \/ Text[pos + 1] = Semi)
        /\ d' = Read(d, Text[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED << run, verdict >>
End == /\ verdict = "" /\ pos = Len(Text)
       /\ verdict' = Verdict /\ UNCHANGED << run, pos, d >>
       /\ PrintT("VERDICT " \o ToString(R.id) \o " " \o verdict' \o " " \o d.mode)
Spec == Init /\ [][Name \/ Step \/ End]_<< run, pos, d, verdict >>

RoundTrip == pos = Len(Text) /\ Accepts(d) => Render(KindOf(R), d.parts) = Text
==============================================================================
