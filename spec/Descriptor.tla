------------------------------ MODULE Descriptor ------------------------------
(* Field and method descriptors (JVMS 4.3) as a character automaton.  `d` is   *)
(*   mode   "open" (before the parenthesis), "type", "name", "end", "bad"      *)
(*   where  "field" (a lone type), "param", "ret"                              *)
(*   dims   opening brackets of the type being read                            *)
(*   name   characters of the name being read                                  *)
(*   parts  the types read: << dims, letter, name characters... >>, and <<>>   *)
(*          for void                                                           *)
EXTENDS Integers, Sequences

Prims == { 66, 67, 68, 70, 73, 74, 83, 90 }     \* B C D F I J S Z
LB == 91  L == 76  Semi == 59  Open == 40  Close == 41  V == 86
MaxDims == 255
MaxParams == 255

Start(kind) == [ mode |-> IF kind = "M" THEN "open" ELSE "type",
                 where |-> IF kind = "M" THEN "param" ELSE "field",
                 dims |-> 0, name |-> <<>>, parts |-> <<>> ]
Bad(d) == [ d EXCEPT !.mode = "bad" ]
Done(d, part) ==
  IF d.where = "param" /\ Len(d.parts) = MaxParams THEN Bad(d)
  ELSE [ d EXCEPT !.parts = Append(@, part), !.dims = 0, !.name = <<>>,
                  !.mode = IF d.where = "param" THEN "type" ELSE "end" ]

Read(d, c) ==
  CASE d.mode = "open" -> IF c = Open THEN [ d EXCEPT !.mode = "type" ] ELSE Bad(d)
    [] d.mode = "type" ->
         IF c = LB THEN (IF d.dims < MaxDims THEN [ d EXCEPT !.dims = @ + 1 ] ELSE Bad(d))
         ELSE IF c \in Prims THEN Done(d, << d.dims, c >>)
         ELSE IF c = L THEN [ d EXCEPT !.mode = "name" ]
         ELSE IF c = Close /\ d.where = "param" /\ d.dims = 0 THEN [ d EXCEPT !.where = "ret" ]
         ELSE IF c = V /\ d.where = "ret" /\ d.dims = 0 THEN Done(d, <<>>)
         ELSE Bad(d)
    [] d.mode = "name" ->
         IF c # Semi THEN [ d EXCEPT !.name = Append(@, c) ]
         ELSE IF d.name = <<>> THEN Bad(d)
         ELSE Done(d, << d.dims, L >> \o d.name)
    [] OTHER -> Bad(d)
Accepts(d) == d.mode = "end"

RECURSIVE ReadAll(_, _)
ReadAll(d, cs) == IF cs = <<>> THEN d ELSE ReadAll(Read(d, Head(cs)), Tail(cs))
(* Within a name, characters that are no semicolon can be read at once:        *)
(* ReadRun(d, cs) = ReadAll(d, cs), which MC_Descriptor checks.                *)
ReadRun(d, cs) == [ d EXCEPT !.name = @ \o cs ]

-----------------------------------------------------------------------------
(* Printing *)
RenderType(p) ==
  [ i \in 1..p[1] |-> LB ] \o << p[2] >>
  \o (IF p[2] = L THEN SubSeq(p, 3, Len(p)) \o << Semi >> ELSE <<>>)
RECURSIVE RenderAll(_)
RenderAll(ps) == IF ps = <<>> THEN <<>> ELSE RenderType(Head(ps)) \o RenderAll(Tail(ps))
Render(kind, parts) ==
  IF kind = "T" THEN RenderType(parts[1])
  ELSE << Open >> \o RenderAll(SubSeq(parts, 1, Len(parts) - 1)) \o << Close >>
       \o (IF parts[Len(parts)] = <<>> THEN << V >> ELSE RenderType(parts[Len(parts)]))
==============================================================================
