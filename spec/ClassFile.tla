------------------------------ MODULE ClassFile ------------------------------
(* A pushdown state machine that reads a Java class file (JVMS SE 9, ch. 4)    *)
(* the way jbcrs promises to: one action per unit of the format.  The machine  *)
(* state `m` is a record                                                       *)
(*   pos    bytes consumed so far                                              *)
(*   lims   ends of the nested extents, outermost (the file) first             *)
(*   todo   pending work, innermost first: << kind, args... >>                 *)
(*   next   next constant pool index                                           *)
(*   names  << index, attribute kind >> for every Utf8 constant read           *)
(*   st     "run", then "ok", "err", or "any" (the format leaves the outcome   *)
(*          open: any value or error will do, but not a crash)                 *)
(*   lax    TRUE once something was read that a reader may refuse, with any    *)
(*          error at any later point, but that has only one meaning if it is   *)
(*          accepted                                                           *)
(*   e      for "err": the error; "*" when its kind is left open               *)
(*   ev     the events [l |-> label, v |-> integers] of the last action: what  *)
(*          must be visible of it in the parsed class                          *)
(* The bytes themselves are BytesOf(src): the model binds src to a byte        *)
(* sequence, the trace specification to the number of a recorded run.          *)
EXTENDS Integers, Sequences, TLC, Bytes, ModUtf8, Opcodes

CONSTANT BytesOf(_)
VARIABLES src, m

(* Nesting that every implementation must support; deeper input may be         *)
(* accepted or refused.  (Attributes within attributes; element values within  *)
(* element values.)                                                            *)
MaxAttrNest == 24
MaxValueNest == 48

Ev(l, v) == << [ l |-> l, v |-> v ] >>

Init0 == [ pos |-> 0, lims |-> << Len(BytesOf(src)) >>, todo |-> << <<"magic">> >>,
           next |-> 1, names |-> <<>>, st |-> "run", lax |-> FALSE, e |-> "", ev |-> <<>> ]

-----------------------------------------------------------------------------
(* Helpers *)
Lim  == m.lims[Len(m.lims)]
Has(k) == m.pos + k <= Lim
Top  == m.todo[1]
Rest == Tail(m.todo)
At(k) == m.st = "run" /\ m.todo # <<>> /\ Top[1] = k

(* consume k bytes, replace the current work item by `work`, emit `ev` *)
Go(k, work, ev) == [ m EXCEPT !.pos = @ + k, !.todo = work \o Rest, !.ev = ev ]
Fail(err) == [ m EXCEPT !.st = "err", !.e = err, !.ev = <<>> ]
Open      == [ m EXCEPT !.st = "any", !.ev = <<>> ]
Lax(mm)   == [ mm EXCEPT !.lax = TRUE ]
LaxIf(c, mm) == IF c THEN Lax(mm) ELSE mm
Short     == Fail("LimitExceeded")
Step(mm)  == m' = mm /\ UNCHANGED src

Push(s, x) == Append(s, x)
Front(s)   == SubSeq(s, 1, Len(s) - 1)

-----------------------------------------------------------------------------
(* Header *)
Magic == << 202, 254, 186, 190 >>

ReadMagic == At("magic") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(4) THEN Short
  ELSE IF U1s(b, m.pos, 4) # Magic THEN Fail("NotAClass")
  ELSE Go(4, << <<"version">> >>, <<>>))

ReadVersion == At("version") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(6) THEN Short
  ELSE Go(6, << <<"cp", U2(b, m.pos + 4)>>, <<"class">> >>,
          Ev("version", U2s(b, m.pos, 2))))

-----------------------------------------------------------------------------
(* Constant pool: << "cp", count >> with the next index in m.next *)
AttributeNames == {
  "AnnotationDefault", "BootstrapMethods", "Code", "ConstantValue", "Deprecated",
  "EnclosingMethod", "Exceptions", "InnerClasses", "LineNumberTable",
  "LocalVariableTable", "LocalVariableTypeTable", "MethodParameters", "Module",
  "ModuleMainClass", "ModulePackages", "RuntimeVisibleAnnotations",
  "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations",
  "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations",
  "RuntimeInvisibleTypeAnnotations", "SourceFile", "Signature", "StackMapTable",
  "Synthetic", "SourceDebugExtension" }
KindOfCodes == [ c \in { Codes(n) : n \in AttributeNames } |->
                   CHOOSE n \in AttributeNames : Codes(n) = c ]
NameLengths == { Len(n) : n \in AttributeNames }
KindOf(cs) == IF Len(cs) \in NameLengths /\ cs \in DOMAIN KindOfCodes
              THEN KindOfCodes[cs] ELSE "Unknown"

(* payload width and label of the constants of fixed width *)
CpTable == [ t \in {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 18, 19, 20} |->
  CASE t = 3  -> << 2, "C.Integer" >>      [] t = 4  -> << 2, "C.Float" >>
    [] t = 5  -> << 4, "C.Long" >>         [] t = 6  -> << 4, "C.Double" >>
    [] t = 7  -> << 1, "C.Class" >>        [] t = 8  -> << 1, "C.String" >>
    [] t = 9  -> << 2, "C.FieldRef" >>     [] t = 10 -> << 2, "C.MethodRef" >>
    [] t = 11 -> << 2, "C.InterfaceMethodRef" >>
    [] t = 12 -> << 2, "C.NameAndType" >>  [] t = 16 -> << 1, "C.MethodType" >>
    [] t = 18 -> << 2, "C.InvokeDynamic" >> [] t = 19 -> << 1, "C.Module" >>
    [] t = 20 -> << 1, "C.Package" >> ]
CpFixed == DOMAIN CpTable
MethodHandleKinds == 1..9

AddCp(k, width, ev) ==
  [ m EXCEPT !.pos = @ + k, !.next = @ + width,
             !.ev = ev \o (IF width = 2 THEN Ev("C.none", << m.next + 1 >>) ELSE <<>>) ]

BadCp == Fail("InvalidCPItem:" \o ToString(m.next))

ReadConstant == At("cp") /\ m.next < Top[2] /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short ELSE
  LET tag == U1(b, m.pos) IN
  IF tag = 1 THEN
    IF ~Has(3) THEN Short ELSE
    LET n == U2(b, m.pos + 1) IN
    IF ~Has(3 + n) THEN Fail("*") ELSE       \* cut off, and maybe malformed as well
    LET d == Decode(U1s(b, m.pos + 3, n)) IN
    IF d[1] = "bad" THEN Fail("InvalidUTF8")
    ELSE LaxIf(d[1] = "lax",
         [ AddCp(3 + n, 1, Ev("C.Utf8", << m.next >> \o d[2]))
           EXCEPT !.names = Push(@, << m.next, KindOf(d[2]) >>) ])
  ELSE IF tag = 15 THEN
    IF ~Has(2) THEN Short
    ELSE IF U1(b, m.pos + 1) \notin MethodHandleKinds THEN BadCp
    ELSE IF ~Has(4) THEN Short
    ELSE AddCp(4, 1, Ev("C.MethodHandle", << m.next, U1(b, m.pos + 1), U2(b, m.pos + 2) >>))
  ELSE IF tag \in CpFixed THEN
    LET w == CpTable[tag][1] IN
    IF ~Has(1 + 2 * w) THEN Short
    ELSE AddCp(1 + 2 * w, IF tag \in {5, 6} THEN 2 ELSE 1,
               Ev(CpTable[tag][2], << m.next >> \o U2s(b, m.pos + 1, w)))
  ELSE BadCp)

(* A long or double in the last slot claims an index the file does not have:   *)
(* the format forbids it, the outcome is left open.                            *)
EndPool == At("cp") /\ m.next >= Top[2] /\ Step(
  IF m.next > Top[2] /\ Top[2] # 0 THEN Open
  ELSE Go(0, <<>>, Ev("C.end", << m.next >>)))

IsUtf8(i) == \E k \in 1..Len(m.names) : m.names[k][1] = i
AttrKind(i) == m.names[CHOOSE k \in 1..Len(m.names) : m.names[k][1] = i][2]

-----------------------------------------------------------------------------
(* Class, fields, methods *)
ReadClass == At("class") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(6) THEN Short
  ELSE Go(6, << <<"list", "interfaces">>, <<"members", "field">>, <<"members", "method">>,
                <<"attrs">>, <<"end">> >>, Ev("class", U2s(b, m.pos, 3))))

(* << "list", label >>: a counted list of 2-byte values *)
ReadList == At("list") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(2) THEN Short ELSE
  LET n == U2(b, m.pos) IN
  IF ~Has(2 + 2 * n) THEN Short
  ELSE Go(2 + 2 * n, <<>>, Ev(Top[2], <<>> \o U2s(b, m.pos + 2, n))))

(* << "table", label, width, cw >>: a counted table (count of cw bytes) whose  *)
(* entries have `width` 2-byte fields; event: the fields, flat                 *)
ReadTable == At("table") /\ LET b == BytesOf(src) IN Step(
  LET cw == Top[4] IN
  IF ~Has(cw) THEN Short ELSE
  LET n == IF cw = 1 THEN U1(b, m.pos) ELSE U2(b, m.pos) IN
  IF ~Has(cw + 2 * n * Top[3]) THEN Short
  ELSE Go(cw + 2 * n * Top[3], <<>>, Ev(Top[2], <<>> \o U2s(b, m.pos + cw, n * Top[3]))))

(* << "count", label, cw, kind, extra >>: a counted sequence of `kind` items,  *)
(* done one by one as << "rep", n, kind, extra >>                              *)
ReadCount == At("count") /\ LET b == BytesOf(src) IN Step(
  LET cw == Top[3] IN
  IF ~Has(cw) THEN Short ELSE
  LET n == IF cw = 1 THEN U1(b, m.pos) ELSE U2(b, m.pos) IN
  Go(cw, << <<"rep", n, Top[4], Top[5]>> >>, Ev(Top[2], << n >>)))

Repeat == At("rep") /\ Step(
  IF Top[2] = 0 THEN Go(0, <<>>, <<>>)
  ELSE Go(0, << <<Top[3], Top[4]>>, <<"rep", Top[2] - 1, Top[3], Top[4]>> >>, <<>>))

ReadMembers == At("members") /\ Step(
  Go(0, << <<"count", IF Top[2] = "field" THEN "fields" ELSE "methods", 2, "member", Top[2]>> >>,
     <<>>))

ReadMember == At("member") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(6) THEN Short
  ELSE Go(6, << <<"attrs">> >>, Ev(Top[2], U2s(b, m.pos, 3))))

Finish == At("end") /\ Step(
  \* bytes after the class may be refused
  LaxIf(m.pos # Lim, [ m EXCEPT !.st = "ok", !.todo = <<>>, !.ev = <<>> ]))

-----------------------------------------------------------------------------
(* Attributes *)
ReadAttrs == At("attrs") /\ Step(Go(0, << <<"count", "attrs", 2, "attr", "">> >>, <<>>))

AnnLabel(k) == "A." \o k
Body(kind, name, len) ==
  CASE kind \in {"ConstantValue", "ModuleMainClass", "SourceFile", "Signature"}
                               -> << <<"fixed", AnnLabel(kind), 1>> >>
    [] kind \in {"Deprecated", "Synthetic"} -> << <<"fixed", AnnLabel(kind), 0>> >>
    [] kind = "EnclosingMethod" -> << <<"fixed", "A.EnclosingMethod", 2>> >>
    [] kind \in {"Exceptions", "ModulePackages"} -> << <<"list", AnnLabel(kind)>> >>
    [] kind = "InnerClasses"    -> << <<"table", "A.InnerClasses", 4, 2>> >>
    [] kind = "LineNumberTable" -> << <<"table", "A.LineNumberTable", 2, 2>> >>
    [] kind \in {"LocalVariableTable", "LocalVariableTypeTable"}
                                -> << <<"table", AnnLabel(kind), 5, 2>> >>
    [] kind = "MethodParameters" -> << <<"table", "A.MethodParameters", 2, 1>> >>
    [] kind = "BootstrapMethods" -> << <<"count", "A.BootstrapMethods", 2, "head", <<"bsm", 1>> >> >>
    [] kind = "Module" ->
         << <<"fixed", "A.Module", 3>>, <<"table", "requires", 3, 2>>,
            <<"count", "exports", 2, "head", <<"export", 2>> >>,
            <<"count", "opens", 2, "head", <<"open", 2>> >>,
            <<"list", "uses">>,
            <<"count", "provides", 2, "head", <<"provide", 1>> >> >>
    [] kind \in {"RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"}
                                -> << <<"count", AnnLabel(kind), 2, "ann", 0>> >>
    [] kind \in {"RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"}
                                -> << <<"count", AnnLabel(kind), 1, "pann", 0>> >>
    [] kind \in {"RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"}
                                -> << <<"count", AnnLabel(kind), 2, "tann", 0>> >>
    [] kind = "AnnotationDefault" -> << <<"fixed", "A.AnnotationDefault", 0>>, <<"value", 1>> >>
    [] kind = "StackMapTable"   -> << <<"count", "A.StackMapTable", 2, "frame", 0>> >>
    [] kind = "SourceDebugExtension" -> << <<"text", len>> >>
    [] kind = "Code"            -> << <<"code">> >>
    [] OTHER                    -> << <<"raw", name, len>> >>

ReadAttr == At("attr") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(2) THEN Short ELSE
  LET name == U2(b, m.pos) IN
  IF ~IsUtf8(name) THEN Fail("InvalidCPItem:" \o ToString(name))
  ELSE IF ~Has(6) THEN Short ELSE
  LET len == Len4(b, m.pos + 2) IN
  IF ~Has(6 + len) THEN Short
  ELSE LaxIf(Len(m.lims) > MaxAttrNest,
       [ Go(6, Body(AttrKind(name), name, len) \o << <<"endattr">> >>, <<>>)
         EXCEPT !.lims = Push(@, m.pos + 6 + len) ]))

(* the content must end exactly where its extent ends *)
EndAttr == At("endattr") /\ Step(
  IF m.pos # Lim THEN Short
  ELSE [ Go(0, <<>>, <<>>) EXCEPT !.lims = Front(@) ])

(* << "fixed", label, n >>: n 2-byte fields *)
ReadFixed == At("fixed") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(2 * Top[3]) THEN Short
  ELSE Go(2 * Top[3], <<>>, Ev(Top[2], <<>> \o U2s(b, m.pos, Top[3]))))

(* << "head", <<label, n>> >>: n 2-byte fields and a counted list of them *)
ReadHeadList == At("head") /\ LET b == BytesOf(src) IN Step(
  LET k == Top[2][2] IN
  IF ~Has(2 * k + 2) THEN Short ELSE
  LET n == U2(b, m.pos + 2 * k) IN
  IF ~Has(2 * k + 2 + 2 * n) THEN Short
  ELSE Go(2 * k + 2 + 2 * n, <<>>,
          Ev(Top[2][1], U2s(b, m.pos, k) \o U2s(b, m.pos + 2 * k + 2, n))))

(* an attribute with a name that is not predefined: kept verbatim *)
ReadRaw == At("raw") /\ LET b == BytesOf(src) IN Step(
  Go(Top[3], <<>>, Ev("A.Unknown", << Top[2] >> \o U1s(b, m.pos, Top[3]))))

ReadText == At("text") /\ LET b == BytesOf(src) IN Step(
  LET d == Decode(U1s(b, m.pos, Top[2])) IN
  IF d[1] = "bad" THEN Fail("InvalidUTF8")
  ELSE LaxIf(d[1] = "lax", Go(Top[2], <<>>, Ev("A.SourceDebugExtension", d[2]))))

-----------------------------------------------------------------------------
(* Code *)
ReadCode == At("code") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(8) THEN Short ELSE
  LET len == Len4(b, m.pos + 4) IN
  IF ~Has(8 + len) THEN Short
  ELSE IF len = 0 THEN Fail("*")
  ELSE LaxIf(len > 65535,                     \* the format's limit on a method body
       [ Go(8, << <<"insn", m.pos + 8>>, <<"table", "exceptions", 4, 2>>, <<"attrs">> >>,
            Ev("A.Code", U2s(b, m.pos, 2)))
         EXCEPT !.lims = Push(@, m.pos + 8 + len) ]))

EndCode == At("insn") /\ m.pos = Lim /\ Step([ Go(0, <<>>, <<>>) EXCEPT !.lims = Front(@) ])

InsnAt == m.pos - Top[2]
BadInsnText(op) == "InvalidInstruction:" \o ToString(op) \o ":" \o ToString(InsnAt)
BadInsn(op) == Fail(BadInsnText(op))
(* an instruction of k bytes: stay at "insn" *)
Insn(k, l, args) == [ m EXCEPT !.pos = @ + k, !.ev = Ev(l, << InsnAt >> \o args) ]

ReadInsn == At("insn") /\ m.pos < Lim
            /\ Format(U1(BytesOf(src), m.pos)) \notin {"tsw", "lsw", "wide"}
            /\ LET b == BytesOf(src)
                   p == m.pos + 1
                   op == U1(b, m.pos)
                   f == Format(op)
                   l == Mnemonic(op)
                   need == CASE f = "" -> 1 [] f \in {"u1", "s1", "narr"} -> 2
                             [] f \in {"u2", "s2", "iinc"} -> 3
                             [] f = "mana" -> 4 [] OTHER -> 5
  IN Step(
  IF l = "" THEN BadInsn(op)
  ELSE IF ~Has(need) THEN Short
  ELSE CASE f = ""     -> Insn(1, l, <<>>)
         [] f = "u1"   -> Insn(2, l, << U1(b, p) >>)
         [] f = "s1"   -> Insn(2, l, << S1(b, p) >>)
         [] f = "u2"   -> Insn(3, l, << U2(b, p) >>)
         [] f = "s2"   -> Insn(3, l, << S2(b, p) >>)
         [] f = "s4"   -> Insn(5, l, << S2(b, p) * 65536 + U2(b, p + 2) >>)
         [] f = "iinc" -> Insn(3, l, << U1(b, p), S1(b, p + 1) >>)
         [] f = "mana" -> Insn(4, l, << U2(b, p), U1(b, p + 2) >>)
         \* the bytes that must be zero: anything else may be refused
         [] f = "ifc"  -> LaxIf(U1(b, p + 3) # 0, Insn(5, l, << U2(b, p), U1(b, p + 2) >>))
         [] f = "indy" -> LaxIf(U2(b, p + 2) # 0, Insn(5, l, << U2(b, p) >>))
         [] f = "narr" -> IF U1(b, p) \notin DOMAIN ArrayType THEN BadInsn(op)
                          ELSE Insn(2, l, << U1(b, p) >>))

ReadWide == At("insn") /\ m.pos < Lim /\ Format(U1(BytesOf(src), m.pos)) = "wide"
            /\ LET b == BytesOf(src) IN Step(
  IF ~Has(2) THEN Short ELSE
  LET op == U1(b, m.pos + 1) IN
  IF op = WideIinc THEN
    IF ~Has(6) THEN Short
    ELSE Insn(6, Mnemonic(op), << U2(b, m.pos + 2), S2(b, m.pos + 4) >>)
  ELSE IF op \in WideLocal THEN
    IF ~Has(4) THEN Short ELSE Insn(4, Mnemonic(op), << U2(b, m.pos + 2) >>)
  ELSE BadInsn(196))

(* 32-bit operands are reported as two 16-bit halves *)
Padding == 3 - (InsnAt % 4)

ReadTableSwitch == At("insn") /\ m.pos < Lim /\ Format(U1(BytesOf(src), m.pos)) = "tsw"
            /\ LET b == BytesOf(src)
                   p == m.pos + 1 + Padding
  IN Step(
  IF ~Has(1 + Padding + 12) THEN Short ELSE
  LET n == Diff4(b, p + 8, p + 4) + 1 IN
  IF n < 0 THEN Fail("?" \o BadInsnText(170))
  ELSE IF n > (Lim - m.pos) \div 4 THEN Short
  ELSE IF ~Has(1 + Padding + 12 + 4 * n) THEN Short
  \* high = low - 1, an empty table, may be refused
  ELSE LaxIf(n = 0, Insn(1 + Padding + 12 + 4 * n, Mnemonic(170), U2s(b, p, 6 + 2 * n))))

ReadLookupSwitch == At("insn") /\ m.pos < Lim /\ Format(U1(BytesOf(src), m.pos)) = "lsw"
            /\ LET b == BytesOf(src)
                   p == m.pos + 1 + Padding
  IN Step(
  IF ~Has(1 + Padding + 8) THEN Short ELSE
  LET n == Len4(b, p + 4) IN
  IF n > (Lim - m.pos) \div 8 THEN (IF U1(b, p + 4) >= 128 THEN Fail("?" \o BadInsnText(171)) ELSE Short)
  ELSE IF ~Has(1 + Padding + 8 + 8 * n) THEN Short
  ELSE IF \A i \in 1..(n - 1) : Less4(b, p + 8 * i, p + 8 * i + 8)
  THEN Insn(1 + Padding + 8 + 8 * n, Mnemonic(171), U2s(b, p, 2) \o U2s(b, p + 8, 4 * n))
  \* Keys out of order mean the same map.  What becomes of equal keys is left open.
  ELSE LET at == SortSeq([ i \in 1..n |-> p + 8 * i ], LAMBDA x, y : Less4(b, x, y))
       IN  IF \E i \in 1..(n - 1) : U2s(b, at[i], 2) = U2s(b, at[i + 1], 2) THEN Open
           ELSE Insn(1 + Padding + 8 + 8 * n, Mnemonic(171),
                     U2s(b, p, 2) \o [ i \in 1..(4 * n) |-> U2(b, at[(i + 3) \div 4] + 2 * ((i - 1) % 4)) ]))

-----------------------------------------------------------------------------
(* Stack map table *)
ReadFrame == At("frame") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short ELSE
  LET t == U1(b, m.pos) IN
  IF t <= 63 THEN Go(1, <<>>, Ev("F.same", << t >>))
  ELSE IF t <= 127 THEN Go(1, << <<"vtype">> >>, Ev("F.same1", << t - 64 >>))
  ELSE IF t <= 246 THEN Fail("ReservedStackMapFrame:" \o ToString(t))
  ELSE IF ~Has(3) THEN Short ELSE
  LET delta == U2(b, m.pos + 1) IN
  IF t = 247 THEN Go(3, << <<"vtype">> >>, Ev("F.same1", << delta >>))
  ELSE IF t <= 250 THEN Go(3, <<>>, Ev("F.chop", << delta, 251 - t >>))
  ELSE IF t = 251 THEN Go(3, <<>>, Ev("F.same", << delta >>))
  ELSE IF t <= 254 THEN Go(3, << <<"rep", t - 251, "vtype", "">> >>, Ev("F.append", << delta, t - 251 >>))
  ELSE Go(3, << <<"count", "locals", 2, "vtype", "">>, <<"count", "stack", 2, "vtype", "">> >>,
          Ev("F.full", << delta >>)))

ReadVType == At("vtype") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short ELSE
  LET t == U1(b, m.pos) IN
  IF t > 8 THEN Fail("InvalidVerificationType:" \o ToString(t))
  ELSE IF t <= 6 THEN Go(1, <<>>, Ev("vt", << t >>))
  ELSE IF ~Has(3) THEN Short
  ELSE Go(3, <<>>, Ev("vt", << t, U2(b, m.pos + 1) >>)))

-----------------------------------------------------------------------------
(* Annotations.  The second component of "ann" and "value" is the nesting      *)
(* depth of the element values around it.                                      *)
ReadAnn == At("ann") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(4) THEN Short
  ELSE Go(4, << <<"rep", U2(b, m.pos + 2), "pair", Top[2]>> >>, Ev("ann", U2s(b, m.pos, 2))))

ReadPair == At("pair") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(2) THEN Short
  ELSE Go(2, << <<"value", Top[2] + 1>> >>, Ev("pair", << U2(b, m.pos) >>)))

ReadParamAnn == At("pann") /\ Step(Go(0, << <<"count", "pann", 2, "ann", 0>> >>, <<>>))

(* B C D F I J S Z s c: one index *)
ValueTags == { 66, 67, 68, 70, 73, 74, 83, 90, 115, 99 }

ReadValue == At("value") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short ELSE
  LET t == U1(b, m.pos)
      d == Top[2] IN
  LaxIf(d > MaxValueNest,
  IF t \notin ValueTags \cup { 101, 64, 91 } THEN Fail("InvalidElementValue:" \o ToString(t))
  ELSE IF t \in ValueTags THEN
     IF ~Has(3) THEN Short ELSE Go(3, <<>>, Ev("value", << t, U2(b, m.pos + 1) >>))
  ELSE IF t = 101 THEN     \* 'e'
     IF ~Has(5) THEN Short ELSE Go(5, <<>>, Ev("value", << t >> \o U2s(b, m.pos + 1, 2)))
  ELSE IF t = 64 THEN      \* '@'
     Go(1, << <<"ann", d>> >>, Ev("value", << t >>))
  ELSE                     \* '['
     IF ~Has(3) THEN Short
     ELSE Go(3, << <<"rep", U2(b, m.pos + 1), "value", d + 1>> >>, Ev("value", << t, U2(b, m.pos + 1) >>))))

-----------------------------------------------------------------------------
(* Type annotations: target, path, annotation *)
TargetWidth == [ t \in {0, 1, 22} |-> 1 ] @@ [ t \in {16, 23} \cup (66..70) |-> 2 ]
               @@ [ t \in {17, 18} |-> 2 ] @@ [ t \in 19..21 |-> 0 ] @@ [ t \in 71..75 |-> 3 ]
TargetVars == {64, 65}

ReadTypeAnn == At("tann") /\ Step(
  Go(0, << <<"target">>, <<"count", "path", 1, "step", "">>, <<"ann", 0>> >>, <<>>))

TargetFields(b, t, p) ==
  CASE t \in {0, 1, 22}  -> << U1(b, p) >>
    [] t \in {17, 18}    -> << U1(b, p), U1(b, p + 1) >>
    [] t \in {16, 23} \cup (66..70) -> << U2(b, p) >>
    [] t \in 71..75      -> << U2(b, p), U1(b, p + 2) >>
    [] OTHER             -> <<>>

ReadTarget == At("target") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short ELSE
  LET t == U1(b, m.pos) IN
  IF t \in TargetVars THEN
    IF ~Has(3) THEN Short ELSE
    LET n == U2(b, m.pos + 1) IN
    IF ~Has(3 + 6 * n) THEN Short
    ELSE Go(3 + 6 * n, <<>>, Ev("target", << t >> \o U2s(b, m.pos + 3, 3 * n)))
  ELSE IF t \notin DOMAIN TargetWidth THEN Fail("InvalidTargetType")
  ELSE IF ~Has(1 + TargetWidth[t]) THEN Short
  ELSE Go(1 + TargetWidth[t], <<>>, Ev("target", << t >> \o TargetFields(b, t, m.pos + 1))))

ReadPathStep == At("step") /\ LET b == BytesOf(src) IN Step(
  IF ~Has(1) THEN Short
  ELSE IF U1(b, m.pos) > 3 THEN Fail("InvalidTypePath")
  ELSE IF ~Has(2) THEN Short
  ELSE Go(2, <<>>, Ev("step", << U1(b, m.pos), U1(b, m.pos + 1) >>)))

-----------------------------------------------------------------------------
Next ==
  \/ ReadMagic \/ ReadVersion \/ ReadConstant \/ EndPool \/ ReadClass
  \/ ReadList \/ ReadTable \/ ReadCount \/ Repeat \/ ReadMembers \/ ReadMember \/ Finish
  \/ ReadAttrs \/ ReadAttr \/ EndAttr \/ ReadFixed \/ ReadHeadList \/ ReadRaw \/ ReadText
  \/ ReadCode \/ EndCode \/ ReadInsn \/ ReadWide \/ ReadTableSwitch \/ ReadLookupSwitch
  \/ ReadFrame \/ ReadVType
  \/ ReadAnn \/ ReadPair \/ ReadParamAnn \/ ReadValue
  \/ ReadTypeAnn \/ ReadTarget \/ ReadPathStep

Done == m.st # "run"

-----------------------------------------------------------------------------
(* Invariants of the design *)
TypeOK ==
  /\ m.st \in { "run", "ok", "err", "any" }
  /\ m.pos \in Nat /\ m.next \in 1..65536
  /\ m.lax \in BOOLEAN
  /\ m.st = "err" <=> m.e # ""
  /\ m.st # "err" \/ m.ev = <<>>

(* Extents are nested and the position never leaves the innermost one, so no   *)
(* byte outside an extent is ever used for what is inside it (C06, C01).       *)
Nested ==
  /\ Len(m.lims) >= 1 /\ m.lims[1] = Len(BytesOf(src))
  /\ \A i \in 1..(Len(m.lims) - 1) : m.lims[i + 1] <= m.lims[i]
  /\ m.pos <= Lim

(* Acceptance consumes everything and leaves nothing pending (C14, C05). *)
AcceptsWhole == m.st = "ok" => (m.pos = Len(BytesOf(src)) \/ m.lax) /\ m.todo = <<>> /\ Len(m.lims) = 1

(* Every machine state that is not final has an enabled action: the machine is *)
(* total over all inputs (C01).                                                *)
Total == m.st = "run" => ENABLED Next

(* Each step moves forward or settles pending work: with Total this gives      *)
(* termination on every input (C01).  The measure is the pair                  *)
(* (bytes left, pending repetitions + work), lexicographically.                *)
Forward == [][ m'.pos >= m.pos /\ (m.st = "run") /\ m'.next >= m.next ]_<<m, src>>
==============================================================================
