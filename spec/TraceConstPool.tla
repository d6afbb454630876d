---------------------------- MODULE TraceConstPool ----------------------------
(* Are recorded histories of the real constant pool behaviours of ConstPool?   *)
(* Focus is the property whose part of the results is compared:                *)
(*   C16 interning and equality, C17 capacity, C18 lookups, C19 iteration.     *)
(* The other results are taken as they come; where the real pool then leaves   *)
(* what the specification can follow, the rest of the run is skipped: it is    *)
(* another property that is broken.  Focus "all" compares everything.          *)
EXTENDS ConstPool, TLC, Json, IOUtils

CONSTANT Focus
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, pos, pool, verdict

Init == /\ run \in 1..Len(Runs)
        /\ pos = 0
        /\ pool = [ base |-> 0, slots |-> <<>> \o Runs[run].slots ]   \* what the pool starts with
        /\ verdict = IF Runs[run].first = "ok" THEN "run"
                     ELSE IF Runs[run].parsed = 1 THEN "skip" ELSE "failed-start"

R == Runs[run]
Same(a, b) == a.r = b.r /\ a.k = b.k /\ a.v = b.v /\ a.it = b.it
Permitted(o, x) == \E y \in Results(pool, o) : Same(x, y)
Refused(x) == x.r = "CPTooLarge"
(* a push that the specification cannot follow: it went in although there is   *)
(* an equal entry or no room, or got an index that is not the next one         *)
Odd(o, x) == x.r # "CPTooLarge" /\ ~Permitted(o, x)

Outcome(o, x) ==
  IF Permitted(o, x) THEN "run"
  ELSE IF o.op = "push"
  THEN LET it == Item(o) IN
       CASE Focus = "all" -> "wrong-push"
         [] Focus = "C16" -> IF Refused(x) THEN (IF Find(pool, it) # {} THEN "wrong-push" ELSE "run")
                             ELSE IF x.r = "ok" /\ Find(pool, it) = {} /\ ~Fits(pool, it) THEN "skip"
                             ELSE "wrong-push"
         [] Focus = "C17" -> IF Refused(x) THEN "wrong-push"
                             ELSE IF x.r = "ok" /\ Find(pool, it) = {} /\ ~Fits(pool, it) THEN "wrong-push"
                             ELSE "skip"
         [] OTHER -> IF Odd(o, x) THEN "skip" ELSE "run"
  ELSE IF \/ Focus = "all"
          \/ (Focus = "C16" /\ (o.op \in { "eq", "len" } \/ (o.op = "get" /\ Usable(pool, o.i))))
          \/ (Focus = "C17" /\ (o.op \in { "len", "fill" } \/ (o.op = "get" /\ Usable(pool, o.i))))
          \/ (Focus = "C18" /\ o.op \in { "get", "utf8", "cls", "clso" })
          \/ (Focus = "C19" /\ o.op \in { "iter", "itsum" })
       THEN "wrong-" \o o.op
       ELSE IF x.r = "panic" \/ o.op = "fill" THEN "skip" ELSE "run"

Step ==
  /\ verdict = "run"
  /\ pos < Len(R.ops)
  /\ IF pos + 1 > Len(R.res) THEN verdict' = "cut-short" /\ UNCHANGED << pos, pool >>
     ELSE LET o == R.ops[pos + 1]  x == R.res[pos + 1] IN
       /\ verdict' = Outcome(o, x)
       /\ pos' = IF verdict' = "run" THEN pos + 1 ELSE pos
       (* a refusal that was not due is followed: the pool stays as it was *)
       /\ pool' = IF verdict' = "run" /\ ~(o.op = "push" /\ Refused(x)) THEN After(pool, o) ELSE pool
  /\ UNCHANGED run
End == /\ verdict = "run" /\ pos = Len(R.ops)
       /\ verdict' = "accept" /\ UNCHANGED << run, pos, pool >>
Bad == verdict \notin { "run", "accept", "reported" } /\ verdict' = "reported" /\ UNCHANGED << run, pos, pool >>
Next == \/ Bad /\ PrintT("VERDICT " \o ToString(R.id) \o " " \o verdict \o " " \o ToString(pos))
        \/ End /\ PrintT("VERDICT " \o ToString(R.id) \o " accept " \o ToString(pos))
        \/ Step
Spec == Init /\ [][Next]_<< run, pos, pool, verdict >>

Within == WithinEncoding(pool)
Two == TwoSlots(pool)
(* "fill" alone sets the pool up *)
Stable == [][(pos < Len(R.ops) /\ R.ops[pos + 1].op = "fill") \/ Extends(pool', pool)]_<< run, pos, pool, verdict >>
==============================================================================
