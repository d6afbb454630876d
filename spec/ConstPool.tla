------------------------------- MODULE ConstPool -------------------------------
(* The constant pool as a user of the library sees it: a sequence of slots     *)
(* with indices from 1.  An entry is [k |-> kind, v |-> payload]; a long or    *)
(* double is followed by an unusable slot.  So that full pools stay tractable  *)
(* the first `base` slots are the distinct filler constants Filler(1..base)    *)
(* and `slots` holds what comes after them.                                    *)
(* The operators give, for each operation, the set of permitted results        *)
(* [r, k, v, it] and the pool after it.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxLen == 65535                      \* the encoded length is a 16-bit number
None == [ k |-> "", v |-> <<>> ]
Filler(i) == [ k |-> "C.Integer", v |-> << 4096, i - 1 >> ]
Width(x) == IF x.k \in { "C.Long", "C.Double" } THEN 2 ELSE 1

Empty(n) == [ base |-> n, slots |-> <<>> ]
Length(p) == p.base + Len(p.slots) + 1
At(p, i) == IF i < 1 \/ i >= Length(p) THEN None
            ELSE IF i <= p.base THEN Filler(i) ELSE p.slots[i - p.base]
Usable(p, i) == At(p, i) # None

(* the indices of entries equal to x *)
Find(p, x) ==
  { p.base + j : j \in { j \in 1..Len(p.slots) : p.slots[j] = x } } \cup
  (IF x.k = "C.Integer" /\ x.v[1] = 4096 /\ x.v[2] < p.base THEN { x.v[2] + 1 } ELSE {})

Fits(p, x) == Length(p) + Width(x) <= MaxLen
Appended(p, x) == [ p EXCEPT !.slots = @ \o << x >> \o (IF Width(x) = 2 THEN << None >> ELSE <<>>) ]

Res(r, k, v) == [ r |-> r, k |-> k, v |-> v, it |-> <<>> ]
Ok(v) == Res("ok", "", v)
Missing(i) == Res("InvalidCPItem:" \o ToString(i), "", <<>>)

-----------------------------------------------------------------------------
(* Push: one index per distinct value; refused exactly when it does not fit *)
PushResults(p, x) ==
  IF Find(p, x) # {} THEN { Ok(<< i >>) : i \in Find(p, x) }
  ELSE IF Fits(p, x) THEN { Ok(<< Length(p) >>) }
  ELSE { Res("CPTooLarge", "", <<>>) }
AfterPush(p, x) == IF Find(p, x) = {} /\ Fits(p, x) THEN Appended(p, x) ELSE p

(* Lookups *)
GetResult(p, i) ==
  IF Usable(p, i) THEN LET x == At(p, i) IN Res("ok", x.k, x.v) ELSE Missing(i)
Utf8Result(p, i) == LET x == At(p, i) IN IF x.k = "C.Utf8" THEN Ok(x.v) ELSE Missing(i)
ClassResult(p, i) ==
  LET x == At(p, i) IN IF x.k = "C.Class" THEN Utf8Result(p, x.v[1]) ELSE Missing(i)
OptClassResult(p, i) ==
  LET x == At(p, i) IN
  IF x.k # "C.Class" THEN Missing(i)
  ELSE IF x.v[1] = 0 THEN Res("ok", "none", <<>>)
  ELSE LET u == Utf8Result(p, x.v[1]) IN IF u.r = "ok" THEN Res("ok", "some", u.v) ELSE u
LenResult(p) == Ok(<< Length(p), IF Length(p) = 1 THEN 1 ELSE 0 >>)

(* Iteration: every usable index once, ascending, and no comeback, whichever   *)
(* way it is driven *)
Indices(p) == SelectSeq([ i \in 1..(Length(p) - 1) |-> i ], LAMBDA i : Usable(p, i))
IterResult(p) ==
  [ r |-> "ok", k |-> "", v |-> << 0, 0 >>,
    it |-> LET s == Indices(p) IN
           [ n \in 1..Len(s) |-> [ k |-> At(p, s[n]).k, v |-> << s[n] >> \o At(p, s[n]).v ] ] ]
(* a digest of it for large pools: how many, how many wrong or out of order,   *)
(* the last index, how often the iterator came back, disagreements *)
SumResult(p) == LET s == Indices(p) IN
  Ok(<< Len(s), 0, IF Len(s) = 0 THEN 0 ELSE s[Len(s)], 0, 0 >>)

(* Equality of constants: same kind and same payload; equal ones hash alike *)
EqResults(x, y) ==
  IF x = y THEN { Ok(<< 1, 1, 0, 1 >>) } ELSE { Ok(<< 0, 0, 1, h >>) : h \in { 0, 1 } }

-----------------------------------------------------------------------------
(* Operations as records [op, k, v] with i the index or number *)
Item(o) == [ k |-> o.k, v |-> o.v ]
Results(p, o) ==
  CASE o.op = "push" -> PushResults(p, Item(o))
    [] o.op = "fill" -> { Ok(<< 0 >>) }
    [] o.op = "get"  -> { GetResult(p, o.i) }
    [] o.op = "utf8" -> { Utf8Result(p, o.i) }
    [] o.op = "cls"  -> { ClassResult(p, o.i) }
    [] o.op = "clso" -> { OptClassResult(p, o.i) }
    [] o.op = "len"  -> { LenResult(p) }
    [] o.op = "iter" -> { IterResult(p) }
    [] o.op = "itsum" -> { SumResult(p) }
    [] o.op = "eq"   -> EqResults(Item(o), [ k |-> o.k2, v |-> o.v2 ])
After(p, o) == CASE o.op = "push" -> AfterPush(p, Item(o))
                 [] o.op = "fill" -> Empty(o.i)          \* only on an empty pool
                 [] OTHER -> p

-----------------------------------------------------------------------------
(* Invariants of any reachable pool *)
WithinEncoding(p) == Length(p) <= MaxLen
TwoSlots(p) == \A j \in 1..Len(p.slots) :
  /\ p.slots[j] # None /\ Width(p.slots[j]) = 2 => j < Len(p.slots) /\ p.slots[j + 1] = None
  /\ p.slots[j] = None => j > 1 /\ p.slots[j - 1] # None /\ Width(p.slots[j - 1]) = 2
Interned(p) == \A i, j \in 1..Len(p.slots) :
  p.slots[i] # None /\ p.slots[i] = p.slots[j] => i = j
(* an index handed out keeps its meaning *)
Extends(q, p) == /\ q.base = p.base /\ Len(q.slots) >= Len(p.slots)
                 /\ SubSeq(q.slots, 1, Len(p.slots)) = p.slots
==============================================================================
