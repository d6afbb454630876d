-------------------------------- MODULE Bytes --------------------------------
(* Big-endian reads from a byte sequence.  `p` is an offset (0-based) into the *)
(* sequence `b`.  TLC integers are 32-bit, so 4- and 8-byte quantities are     *)
(* handled as sequences of 16-bit halves.                                      *)
EXTENDS Integers, Sequences

U1(b, p) == b[p + 1]
S1(b, p) == IF b[p + 1] >= 128 THEN b[p + 1] - 256 ELSE b[p + 1]
U2(b, p) == b[p + 1] * 256 + b[p + 2]
S2(b, p) == LET u == U2(b, p) IN IF u >= 32768 THEN u - 65536 ELSE u
H4(b, p) == << U2(b, p), U2(b, p + 2) >>
H8(b, p) == << U2(b, p), U2(b, p + 2), U2(b, p + 4), U2(b, p + 6) >>
U2s(b, p, n) == [ i \in 1..n |-> U2(b, p + 2 * (i - 1)) ]
U1s(b, p, n) == SubSeq(b, p + 1, p + n)

Signed(h) == IF h >= 32768 THEN h - 65536 ELSE h
(* a signed 32-bit value given by halves, as an integer; only for small ones *)
S4(b, p) == Signed(U2(b, p)) * 65536 + U2(b, p + 2)

(* Stands for every unsigned 32-bit quantity of 2^29 or more: larger than any  *)
(* input considered, and small enough to add to an offset.                     *)
Big == 536870912
Len4(b, p) == IF U2(b, p) >= 8192 THEN Big ELSE U2(b, p) * 65536 + U2(b, p + 2)

(* high - low of two signed 32-bit values, clipped to -Big..Big *)
Diff4(b, high, low) ==
  LET dh == Signed(U2(b, high)) - Signed(U2(b, low))
      dl == U2(b, high + 2) - U2(b, low + 2)
  IN  IF dh >= 8191 THEN Big ELSE IF dh <= -8191 THEN -Big ELSE dh * 65536 + dl

(* signed 32-bit comparison of the values at two offsets *)
Less4(b, p, q) ==
  \/ Signed(U2(b, p)) < Signed(U2(b, q))
  \/ U2(b, p) = U2(b, q) /\ U2(b, p + 2) < U2(b, q + 2)

(* ------------------------------------------------------------------------- *)
(* ASCII text as bytes, for readable specifications                            *)
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789();/[<>"
AlphabetCodes == [ i \in 1..26 |-> 64 + i ] \o [ i \in 1..26 |-> 96 + i ]
                 \o [ i \in 1..10 |-> 47 + i ] \o << 40, 41, 59, 47, 91, 60, 62 >>
CodeOf == [ c \in { SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet) } |->
              AlphabetCodes[CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c] ]
Codes(s) == [ i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)] ]
==============================================================================
