---------------------------- MODULE TraceClassFile ----------------------------
(* Trace validation: is what the real parser did with these bytes a behaviour  *)
(* of ClassFile?  A recorded run has the bytes, the outcome, and (if accepted) *)
(* the parsed class flattened into events; the specification re-reads the      *)
(* bytes action by action and each action's events must be the next recorded   *)
(* ones.  Every run ends in one printed verdict.                               *)
EXTENDS ClassFile, Focus, Json, IOUtils

CONSTANT CompareErrors        \* TRUE: the error itself is compared as well

Runs == ndJsonDeserialize(IOEnv.TRACE)
TBytes(i) == Runs[i].b
Recorded == [ i \in 1..Len(Runs) |-> Seen(Runs[i].ev) ]

VARIABLES tp,        \* recorded events matched so far
          verdict    \* "" while running

Accepted(i) == Runs[i].r = "ok"
Refused(i)  == Runs[i].r = "err"

TInit ==
  /\ src \in 1..Len(Runs)
  /\ m = Init0
  /\ tp = 0
  /\ verdict = ""

Matches(evs) ==
  /\ tp + Len(evs) <= Len(Recorded[src])
  /\ \A k \in 1..Len(evs) : Recorded[src][tp + k] = evs[k]

(* Does the error `got` say what is wrong?  "*": any error does; "?E:details":  *)
(* another kind of error than E may do, but E must have these details.         *)
ErrorKind(e) == CHOOSE k \in { SubSeq(e, 1, i) : i \in 0..Len(e) } :
               /\ \A i \in 1..Len(k) : SubSeq(k, i, i) # ":"
               /\ (Len(k) = Len(e) \/ SubSeq(e, Len(k) + 1, Len(k) + 1) = ":")
Names(want, got) ==
  \/ want = "*" \/ want = got
  \/ /\ SubSeq(want, 1, 1) = "?"
     /\ LET w == SubSeq(want, 2, Len(want)) IN w = got \/ ErrorKind(w) # ErrorKind(got)

Judge(evs) ==
  CASE ~Accepted(src) /\ ~Refused(src) -> "crash"
    [] m'.st = "any" \/ (m'.lax /\ Refused(src)) -> "accept"
    [] m'.st = "err" ->
         IF Accepted(src) THEN "accepted-bad-input"
         ELSE IF CompareErrors /\ ~Names(m'.e, Runs[src].e) THEN "wrong-error"
         ELSE "accept"
    [] m'.st = "ok" ->
         IF Refused(src) THEN "refused-good-input"
         ELSE IF tp + Len(evs) = Len(Recorded[src]) THEN "accept" ELSE "extra-events"
    [] OTHER -> IF ~Accepted(src) \/ Matches(evs) THEN "" ELSE "wrong-event"

(* One line per run; the details of a mismatch only when asked for. *)
Detail(evs) ==
  IF "DETAIL" \in DOMAIN IOEnv
  THEN " specified:" \o ToString(evs) \o " recorded:" \o
       (IF tp < Len(Recorded[src]) THEN ToString(SubSeq(Recorded[src], tp + 1, Len(Recorded[src])))
        ELSE Runs[src].r \o " " \o Runs[src].e)
  ELSE ""
Report(v, evs) ==
  v = "" \/ PrintT("VERDICT " \o ToString(Runs[src].id) \o " " \o v \o " "
                   \o (IF m'.lax THEN "lax" ELSE m'.st) \o " "
                   \o ToString(m'.pos) \o " " \o ToString(m'.e) \o Detail(evs))

TNext ==
  /\ verdict = ""
  /\ Next
  /\ LET evs == IF Accepted(src) THEN Seen(m'.ev) ELSE <<>>
     IN  /\ verdict' = Judge(evs)
         /\ tp' = tp + Len(evs)
         /\ Report(verdict', evs)

TSpec == TInit /\ [][TNext]_<< src, m, tp, verdict >>

==============================================================================
