------------------------------- MODULE MC_Prefix -------------------------------
(* Two copies of the class file machine in step: one reads a file, the other   *)
(* the file cut off after some byte.  C14 on the design: what is cut off is    *)
(* never accepted, and the reason is that the two agree in every detail until  *)
(* something reaches past the cut.                                             *)
(* The copies take turns in the variables of ClassFile: << src, m >> is the    *)
(* one whose turn it is, << src2, m2 >> the other one.  (A second INSTANCE of  *)
(* ClassFile says the same, but TLC evaluates its tables over and over.)       *)
EXTENDS ClassFile
CONSTANTS Deep
VARIABLES src2, m2, turn      \* turn 0: both have taken equally many steps

I == INSTANCE Inputs
Files == I!Rich(0) \o I!SetToSeq({ I!With(c, k, I!Content(k, IF c = "code" THEN 2 ELSE 1)) :
                                   c \in (IF Deep THEN I!Contexts ELSE {}), k \in I!PredefinedKinds })
(* the part of file i that is left by the cut, cut = Len(...): all of it *)
Cuts == [ i \in 1..Len(Files) |-> [ k \in 0..Len(Files[i]) |-> SubSeq(Files[i], 1, k) ] ]
CutBytes(c) == Cuts[c[1]][c[2]]

PInit == /\ src \in { << i, Len(Files[i]) >> : i \in 1..Len(Files) }
         /\ src2 \in { << src[1], k >> : k \in 0..(src[2] - 1) }
         /\ m = Init0
         /\ m2 = [ m EXCEPT !.lims = << src2[2] >> ]
         /\ turn = 0
Swap == turn \in { 1, 3 } /\ turn' = (turn + 1) % 4 /\ src' = src2 /\ src2' = src /\ m' = m2 /\ m2' = m
Whole == turn = 0 /\ Next /\ turn' = 1 /\ UNCHANGED << src2, m2 >>
Part == turn = 2 /\ turn' = 3 /\ (IF m.st = "run" THEN Next ELSE UNCHANGED << src, m >>) /\ UNCHANGED << src2, m2 >>
PNext == Swap \/ Whole \/ Part
PSpec == PInit /\ [][PNext]_<< src, m, src2, m2, turn >>

cut == src2[2]
Reaches == m.pos > cut \/ \E i \in 2..Len(m.lims) : m.lims[i] > cut

GoodFiles == turn = 0 => m.st \in { "run", "ok" } /\ ~m.lax
NeverAccepted == turn = 0 => m2.st = (IF Reaches THEN "err" ELSE "run")
InStep == turn = 0 /\ m2.st = "run" => m2 = [ m EXCEPT !.lims[1] = cut ]
Cause == m2.st = "err" => m2.e \in { "LimitExceeded", "*" }
==============================================================================
