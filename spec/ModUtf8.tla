------------------------------- MODULE ModUtf8 -------------------------------
(* Modified UTF-8 (JVMS 4.4.7), stated declaratively over a byte sequence s.   *)
(* The library represents text as Unicode scalar values, so an unpaired        *)
(* surrogate has no representation and is rejected.                            *)
EXTENDS Integers, Sequences

IsCont(c) == c >= 128 /\ c < 192
IsLead(c) == ~IsCont(c)
(* bytes taken by the code unit that starts with lead byte c *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE 3

WellFormed(s) ==
  \A i \in 1..Len(s) : LET c == s[i] IN
     IF c = 0 \/ c >= 240 THEN FALSE
     ELSE IF IsCont(c)
     THEN \/ i > 1 /\ IsLead(s[i-1]) /\ Width(s[i-1]) >= 2
          \/ i > 2 /\ IsCont(s[i-1]) /\ IsLead(s[i-2]) /\ Width(s[i-2]) = 3
     ELSE \A j \in 1..(Width(c) - 1) : i + j <= Len(s) /\ IsCont(s[i+j])

(* the code unit that starts at i, in a well-formed s *)
Unit(s, i) ==
  CASE Width(s[i]) = 1 -> s[i]
    [] Width(s[i]) = 2 -> (s[i] % 32) * 64 + (s[i+1] % 64)
    [] OTHER           -> (s[i] % 16) * 4096 + (s[i+1] % 64) * 64 + (s[i+2] % 64)

HighS(u) == u >= 55296 /\ u <= 56319
LowS(u)  == u >= 56320 /\ u <= 57343
HighAt(s, i) == i >= 1 /\ i + 2 <= Len(s) /\ s[i] = 237 /\ HighS(Unit(s, i))
LowAt(s, i)  == i >= 1 /\ i + 2 <= Len(s) /\ s[i] = 237 /\ LowS(Unit(s, i))

Paired(s) == \A i \in 1..Len(s) :
  s[i] = 237 => /\ HighAt(s, i) => LowAt(s, i + 3)
                /\ LowAt(s, i)  => HighAt(s, i - 3)

(* an encoding longer than necessary: the format leaves open what a reader     *)
(* does with it (virtual machines differ by class file version)                *)
Overlong(s) == \E i \in 1..Len(s) :
  \/ IsLead(s[i]) /\ Width(s[i]) = 2 /\ Unit(s, i) < 128 /\ Unit(s, i) # 0
  \/ IsLead(s[i]) /\ Width(s[i]) = 3 /\ Unit(s, i) < 2048

Chars(s) ==
  LET starts == SelectSeq([ i \in 1..Len(s) |-> i ],
                          LAMBDA i : IsLead(s[i]) /\ ~LowAt(s, i))
  IN  [ k \in 1..Len(starts) |->
          LET i == starts[k] IN
          IF HighAt(s, i)
          THEN 65536 + (Unit(s, i) - 55296) * 1024 + (Unit(s, i + 3) - 56320)
          ELSE Unit(s, i) ]

(* <<status, characters>> with status "ok", "bad" or "lax" (may be refused) *)
Decode(s) ==
  IF \A i \in 1..Len(s) : s[i] >= 1 /\ s[i] < 128 THEN << "ok", s >>
  ELSE IF ~WellFormed(s) THEN << "bad", <<>> >>
  ELSE IF ~Paired(s) THEN << "bad", <<>> >>
  ELSE << IF Overlong(s) THEN "lax" ELSE "ok", Chars(s) >>

(* The encoder, as an independent statement of the same format: Decode inverts *)
(* it, which MC_ModUtf8 checks.                                                *)
Enc3(u) == << 224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64) >>
EncodeChar(c) ==
  IF c >= 1 /\ c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + c \div 64, 128 + (c % 64) >>
  ELSE IF c < 65536 THEN Enc3(c)
  ELSE Enc3(55296 + (c - 65536) \div 1024) \o Enc3(56320 + ((c - 65536) % 1024))
==============================================================================
