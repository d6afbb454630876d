------------------------------ MODULE MC_ModUtf8 ------------------------------
(* The two statements of modified UTF-8, encoder and decoder, are inverse to   *)
(* each other: on all short texts of the characters at the edges of the        *)
(* encoding's ranges, and on all short byte strings of the edge bytes.         *)
EXTENDS ModUtf8, TLC

CONSTANTS TextLen, ByteLen
Chars0 == { 0, 1, 65, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65535,
            65536, 66559, 66560, 1048575, 1048576, 1113087, 1113088, 1114111 }
Bytes0 == { 0, 1, 65, 127, 128, 143, 159, 160, 175, 176, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 255 }

RECURSIVE Encode(_)
Encode(cs) == IF cs = <<>> THEN <<>> ELSE EncodeChar(Head(cs)) \o Encode(Tail(cs))

VARIABLES kind, s
Init == kind \in { "text", "bytes" } /\ s = <<>>
Next == /\ UNCHANGED kind
        /\ \/ kind = "text" /\ Len(s) < TextLen /\ \E c \in Chars0 : s' = Append(s, c)
           \/ kind = "bytes" /\ Len(s) < ByteLen /\ \E c \in Bytes0 : s' = Append(s, c)
Spec == Init /\ [][Next]_<< kind, s >>

(* Decode inverts Encode *)
Inverse == kind = "text" => Decode(Encode(s)) = << "ok", s >>
(* what is accepted is the encoding of what it is read as: no two byte strings *)
(* mean the same text, except overlong ones, and no text holds a surrogate     *)
Canonical == kind = "bytes" => LET d == Decode(s) IN
  /\ d[1] = "ok" => Encode(d[2]) = s
  /\ d[1] = "lax" => Encode(d[2]) # s
  /\ d[1] # "bad" => \A i \in 1..Len(d[2]) : ~HighS(d[2][i]) /\ ~LowS(d[2][i])
  /\ d[1] = "bad" => d[2] = <<>>
(* whether a string is well formed is decided piece by piece: what is accepted *)
(* twice is accepted in a row, unless a pair of surrogates meets               *)
Pieces == kind = "bytes" => \A k \in 1..(Len(s) - 1) :
  LET a == Decode(SubSeq(s, 1, k))  b == Decode(SubSeq(s, k + 1, Len(s))) IN
  a[1] # "bad" /\ b[1] # "bad" => Decode(s)[1] # "bad" /\ Decode(s)[2] = a[2] \o b[2]
===============================================================================
