------------------------------ MODULE TraceFlags ------------------------------
(* Access flag words (JVMS tables 4.1-A, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25)*)
(* every name stands for one bit, and every word keeps all of its bits.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

BitOf ==
  "PUBLIC" :> 0 @@ "PRIVATE" :> 1 @@ "PROTECTED" :> 2 @@ "STATIC" :> 3 @@
  "FINAL" :> 4 @@ "SUPER" :> 5 @@ "SYNCHRONIZED" :> 5 @@ "VOLATILE" :> 6 @@
  "BRIDGE" :> 6 @@ "STATIC_PHASE" :> 6 @@ "TRANSIENT" :> 7 @@ "VARARGS" :> 7 @@
  "NATIVE" :> 8 @@ "INTERFACE" :> 9 @@ "ABSTRACT" :> 10 @@ "STRICT" :> 11 @@
  "SYNTHETIC" :> 12 @@ "ANNOTATION" :> 13 @@ "ENUM" :> 14 @@ "MODULE" :> 15 @@
  "MANDATED" :> 15
Set(w, n) == (w \div (2 ^ BitOf[n])) % 2 = 1
Names(w) == { n \in DOMAIN BitOf : Set(w, n) }

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES word, verdict
Init == word \in 1..Len(Runs) /\ verdict = ""
Range(s) == { s[i] : i \in 1..Len(s) }
Judge(r) == IF r.bits # r.w THEN "wrong-bits"
            ELSE IF Range(r.names) # Names(r.w) THEN "wrong-names"
            ELSE IF Range(r.printed) \cap DOMAIN BitOf # Names(r.w) THEN "wrong-print" ELSE "accept"
Next == /\ verdict = ""
        /\ verdict' = Judge(Runs[word]) /\ UNCHANGED word
        /\ (verdict' = "accept" \/ PrintT("VERDICT " \o ToString(Runs[word].w) \o " " \o verdict'))
Spec == Init /\ [][Next]_<< word, verdict >>
==============================================================================
