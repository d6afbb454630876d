----------------------------- MODULE MC_ConstPool -----------------------------
(* All histories of at most Depth pushes over a small set of constants, on     *)
(* empty pools and on pools a few slots short of full.  Each maximal history   *)
(* is written out for replay in the real pool.                                 *)
EXTENDS ConstPool, TLC, Json

CONSTANTS Depth, Bases, Items
VARIABLES pool, hist

(* constants by number, so that the configuration can choose among them *)
ItemTable == <<
  [ k |-> "C.Integer", v |-> << 0, 1 >> ],       [ k |-> "C.Long", v |-> << 0, 0, 0, 1 >> ],
  [ k |-> "C.Double", v |-> << 0, 0, 0, 1 >> ],  [ k |-> "C.Utf8", v |-> << 97 >> ],
  [ k |-> "C.Class", v |-> << 1 >> ],            [ k |-> "C.Float", v |-> << 0, 1 >> ],
  [ k |-> "C.String", v |-> << 1 >> ],           [ k |-> "C.Integer", v |-> << 4096, 3 >> ] >>

Init == pool \in { Empty(b) : b \in Bases } /\ hist = <<>>
Push(n) == LET x == ItemTable[n] IN
  /\ pool' = AfterPush(pool, x)
  /\ hist' = Append(hist, n)
  /\ Cardinality(PushResults(pool, x)) = 1        \* built pools never leave a choice
Next == Len(hist) < Depth /\ \E n \in Items : Push(n)
        /\ (Len(hist') < Depth \/ PrintT("HIST " \o ToString(pool.base) \o " " \o ToJson(hist')))
Spec == Init /\ [][Next]_<< pool, hist >>

Within == WithinEncoding(pool)
Two == TwoSlots(pool)
NoDuplicates == Interned(pool) /\ \A j \in 1..Len(pool.slots) :
  pool.slots[j] # None => Find(pool, pool.slots[j]) = { pool.base + j }
Stable == [][Extends(pool', pool)]_<< pool, hist >>
(* pushing again what is there returns its index and changes nothing *)
Idempotent == \A j \in 1..Len(pool.slots) : LET x == pool.slots[j] IN
  x # None => PushResults(pool, x) = { Ok(<< pool.base + j >>) } /\ AfterPush(pool, x) = pool
(* what fits is never refused, what does not is *)
Refusal == \A n \in 1..Len(ItemTable) : LET x == ItemTable[n] IN
  (Res("CPTooLarge", "", <<>>) \in PushResults(pool, x))
    <=> Find(pool, x) = {} /\ Length(pool) + Width(x) > 65535
(* iteration agrees with lookup *)
IterMatches == pool.base > 100 \/
  LET it == IterResult(pool).it IN
  /\ \A n \in 1..Len(it) : GetResult(pool, it[n].v[1]) = Res("ok", it[n].k, Tail(it[n].v))
  /\ Len(it) = Cardinality({ i \in 0..(Length(pool) + 3) : GetResult(pool, i).r = "ok" })
==============================================================================
