----------------------------- MODULE MC_Descriptor -----------------------------
(* Every text of at most MaxText characters over an alphabet: the automaton    *)
(* reads it while it is being written.  Each text is written out for replay.   *)
EXTENDS Descriptor, TLC, Json

CONSTANTS Kind, Alphabet, MaxText, Lead
VARIABLES text, d

LeadText == CASE Lead = "" -> <<>> [] Lead = "(" -> << Open >> [] Lead = "()" -> << Open, Close >>
              [] Lead = "(I" -> << Open, 73 >> [] Lead = "([" -> << Open, LB >> [] Lead = "[[" -> << LB, LB >>

Init == text = LeadText /\ d = ReadAll(Start(Kind), LeadText)
Next == /\ Len(text) < MaxText + Len(LeadText)
        /\ \E c \in Alphabet : text' = Append(text, c) /\ d' = Read(d, c)
        /\ PrintT("TEXT " \o ToJson(text') \o " " \o d'.mode)
Spec == Init /\ [][Next]_<< text, d >>

(* Printing inverts reading, for every accepted text. *)
RoundTrip == Accepts(d) => Render(Kind, d.parts) = text
(* Rejection is final, and an accepted text has no accepted extension. *)
Final == [][d.mode \in { "bad", "end" } => d'.mode = "bad"]_<< text, d >>
Runs == d.mode = "name" => \A n \in 0..2 : \A cs \in [ 1..n -> Alphabet \ { Semi } ] : ReadRun(d, cs) = ReadAll(d, cs)
(* Shape of what is accepted. *)
Shape == Accepts(d) =>
  /\ Len(d.parts) >= 1
  /\ \A i \in 1..Len(d.parts) : LET p == d.parts[i] IN
       IF p = <<>> THEN Kind = "M" /\ i = Len(d.parts)
       ELSE /\ p[1] \in 0..255 /\ p[2] \in Prims \cup { L }
            /\ p[2] = L <=> Len(p) > 2
            /\ \A j \in 3..Len(p) : p[j] # Semi
  /\ Kind = "T" => Len(d.parts) = 1
==============================================================================
