-------------------------------- MODULE Inputs --------------------------------
(* The bounded environments: for each property the class files (good, bad and  *)
(* borderline) on which it is decided exhaustively.  Every set is a product of *)
(* all choices that matter to the property, with contents whose bytes are all  *)
(* different, so that a swapped, dropped or misread field shows.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bytes, Opcodes

CONSTANT Deep     \* TRUE: the larger environments

U(n) == << (n \div 256) % 256, n % 256 >>
L(n) == << 0, 0 >> \o U(n)
Prefix(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Rep(x, n) == [ i \in 1..n |-> x ]
(* n bytes, all different (n <= 256), starting after o *)
Pat(n, o) == [ i \in 1..n |-> (o + 7 * i) % 256 ]
Cat(ss) == FlattenSeq(ss)
Counted(items) == U(Len(items)) \o Cat(items)
Counted1(items) == << Len(items) >> \o Cat(items)

Utf(s) == << 1 >> \o U(Len(s)) \o s
Name(n) == Utf(Codes(n))

Header == << 202, 254, 186, 190, 0, 3, 0, 52 >>
Slots(items) == FoldSeq(LAMBDA x, n : n + (IF x[1] \in {5, 6} THEN 2 ELSE 1), 0, items)
PoolBytes(items) == U(Slots(items) + 1) \o Cat(items)
File(items, acc, this, super, ifs, fields, methods, attrs) ==
  Header \o PoolBytes(items) \o U(acc) \o U(this) \o U(super) \o Counted(ifs)
         \o Counted(fields) \o Counted(methods) \o Counted(attrs)
Member(acc, name, desc, attrs) == U(acc) \o U(name) \o U(desc) \o Counted(attrs)
Attr(idx, content) == U(idx) \o L(Len(content)) \o content
AttrClaim(idx, len4, content) == U(idx) \o len4 \o content
CodeBody(code, exc, attrs) ==
  U(258) \o U(515) \o L(Len(code)) \o code \o Counted(exc) \o Counted(attrs)

(* A file with one attribute (given by its bytes, name index 1) in a context. *)
Contexts == { "class", "field", "method", "code" }
In(ctx, items, attr) ==
  LET c == << attr >> IN
  CASE ctx = "class"  -> File(items, 33, 3, 4, <<>>, <<>>, <<>>, c)
    [] ctx = "field"  -> File(items, 33, 3, 4, <<>>, << Member(2, 5, 6, c) >>, <<>>, <<>>)
    [] ctx = "method" -> File(items, 33, 3, 4, <<>>, <<>>, << Member(1, 7, 8, c) >>, <<>>)
    [] OTHER -> File(items, 33, 3, 4, <<>>, <<>>,
                     << Member(1, 7, 8, << Attr(2, CodeBody(<<177>>, <<>>, c)) >>) >>, <<>>)
Around(ctx, kind, attr) == In(ctx, << Name(kind), Name("Code") >>, attr)
With(ctx, kind, content) == Around(ctx, kind, Attr(1, content))

(* all byte strings over an alphabet of at most n bytes *)
Strings(alpha, n) == UNION { [ 1..k -> alpha ] : k \in 0..n }

-----------------------------------------------------------------------------
(* Contents of the predefined attributes, n controlling their size *)
Table(n, w) == U(n) \o Pat(2 * n * w, 16)
AnnKinds == { "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations" }
ParamAnnKinds == { "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations" }
TypeAnnKinds == { "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations" }
OneFieldKinds == { "ConstantValue", "ModuleMainClass", "SourceFile", "Signature" }
MarkerKinds == { "Deprecated", "Synthetic" }
ListKinds == { "Exceptions", "ModulePackages" }

SimpleAnn(o) == Pat(2, o) \o U(1) \o Pat(2, o + 30) \o << 73 >> \o Pat(2, o + 60)
HeadList(h, n, o) == Pat(2 * h, o) \o U(n) \o Pat(2 * n, o + 50)
ModuleBody(a, b, c, d, e) ==
  Pat(6, 3) \o U(a) \o Pat(6 * a, 20)
  \o Counted([ i \in 1..b |-> HeadList(2, b + 1 - i, 40 * i) ])
  \o Counted([ i \in 1..c |-> HeadList(2, i - 1, 80 + 40 * i) ])
  \o U(d) \o Pat(2 * d, 99)
  \o Counted([ i \in 1..e |-> HeadList(1, i, 120 + 40 * i) ])

Content(kind, n) ==
  CASE kind \in OneFieldKinds -> Pat(2, n)
    [] kind \in MarkerKinds -> <<>>
    [] kind = "EnclosingMethod" -> Pat(4, n)
    [] kind \in ListKinds -> Table(n, 1)
    [] kind = "InnerClasses" -> Table(n, 4)
    [] kind = "LineNumberTable" -> Table(n, 2)
    [] kind \in { "LocalVariableTable", "LocalVariableTypeTable" } -> Table(n, 5)
    [] kind = "MethodParameters" -> << n >> \o Pat(4 * n, 16)
    [] kind = "BootstrapMethods" -> Counted([ i \in 1..n |-> HeadList(1, n - i, 40 * i) ])
    [] kind = "Module" -> ModuleBody(n, n, n, n, n)
    [] kind \in AnnKinds -> Counted([ i \in 1..n |-> SimpleAnn(70 * i) ])
    [] kind \in ParamAnnKinds ->
         Counted1([ i \in 1..n |-> Counted([ j \in 1..(n - i) |-> SimpleAnn(70 * i + 30 * j) ]) ])
    [] kind \in TypeAnnKinds ->
         Counted([ i \in 1..n |-> << 16 >> \o Pat(2, 9 * i) \o << 1, 3, i >> \o SimpleAnn(70 * i) ])
    [] kind = "AnnotationDefault" -> << 91 >> \o Counted([ i \in 1..n |-> << 66 >> \o Pat(2, 50 * i) ])
    [] kind = "StackMapTable" -> Counted([ i \in 1..n |-> << 252 >> \o U(300 + i) \o << 7 >> \o Pat(2, i) ])
    [] kind = "SourceDebugExtension" -> [ i \in 1..n |-> 64 + i ]
    [] kind = "Code" -> CodeBody(Rep(0, n) \o << 177 >>, [ i \in 1..n |-> Pat(8, 60 * i) ], <<>>)
    [] OTHER -> Pat(n, 5)

PredefinedKinds == OneFieldKinds \cup MarkerKinds \cup ListKinds \cup AnnKinds \cup ParamAnnKinds
  \cup TypeAnnKinds \cup { "EnclosingMethod", "InnerClasses", "LineNumberTable",
    "LocalVariableTable", "LocalVariableTypeTable", "MethodParameters", "BootstrapMethods",
    "Module", "AnnotationDefault", "StackMapTable", "SourceDebugExtension", "Code" }

-----------------------------------------------------------------------------
(* Constant pools (C02, C03) *)
Bare(items) == File(items, 33, 1, 2, <<>>, <<>>, <<>>, <<>>)
Counts(items, d) ==      \* declared count off by d
  Header \o U(Slots(items) + 1 + d) \o Cat(items) \o U(33) \o U(1) \o U(2) \o Rep(0, 8)

KindSample == << Utf(<< 97 >>), << 3, 0, 0, 0, 5 >>, << 5 >> \o Pat(8, 1), << 6 >> \o Pat(8, 2), << 7, 0, 1 >> >>
PoolShapes(n) == UNION { [ 1..k -> 1..Len(KindSample) ] : k \in 0..n }
C02Cases(x_) ==
     { Bare([ i \in 1..Len(s) |-> KindSample[s[i]] ]) : s \in PoolShapes(4) }
  \* values that differ, so that nothing is equal to anything else
  \cup { Bare([ i \in 1..Len(s) |-> IF s[i] = 1 THEN Utf(<< 96 + i >>)
                                    ELSE IF s[i] = 2 THEN << 3, 0, 0, i, 5 >>
                                    ELSE << 5 >> \o Pat(8, i) ]) : s \in UNION { [ 1..k -> 1..3 ] : k \in 1..5 } }
  \cup { Counts([ i \in 1..Len(s) |-> KindSample[s[i]] ], d) : s \in PoolShapes(2), d \in { -1, 1 } }
  \cup { Header \o U(0) \o U(33) \o U(1) \o U(2) \o Rep(0, 8) }

Payloads == { Rep(0, 8), Rep(255, 8), << 128 >> \o Rep(0, 7), << 127, 255, 255, 255, 255, 255, 255, 255 >>,
              Pat(8, 0), Pat(8, 130), << 127, 192, 0, 1, 0, 0, 0, 1 >>, << 255, 128, 0, 0, 0, 0, 0, 3 >>,
              << 127, 240, 0, 0, 0, 0, 0, 0 >>, << 127, 248, 0, 0, 0, 0, 0, 9 >>, << 127, 128, 0, 1, 2, 3, 4, 5 >>,
              << 255, 240, 0, 0, 0, 0, 0, 1 >>, << 0, 0, 0, 1, 255, 255, 255, 254 >> }
CpWidth(tag) == CASE tag \in {3, 4, 9, 10, 11, 12, 18} -> 4 [] tag \in {5, 6} -> 8
                  [] tag \in {7, 8, 16, 19, 20} -> 2 [] tag = 15 -> 3 [] OTHER -> 0
KnownTags == { 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 18, 19, 20 }
C03Cases(x_) ==
     { Bare(<< << t >> \o SubSeq(p, 1, CpWidth(t)), Utf(<< 97 >>) >>) : t \in KnownTags, p \in Payloads }
  \cup { Bare(<< << t >> \o Pat(CpWidth(t), 9), << u >> \o Pat(CpWidth(u), 77) >>)
         : t \in KnownTags, u \in KnownTags }
  \cup { Bare(<< << t, 0, 1, 97, 0, 3, 4, 5, 6 >> >>) : t \in (0..255) \ (KnownTags \cup {15}) }
  \cup { Bare(<< Utf(<< 97 >>), << 15, k >> \o Pat(2, 11) >>) : k \in 0..255 }
  \cup { Bare(<< Utf(<< 97 >>), << t, 0, 1, 97 >> >>) : t \in { 0, 2, 13, 14, 17, 21, 255 } }

-----------------------------------------------------------------------------
(* Modified UTF-8 (C04) *)
Edge == { 0, 1, 65, 127, 128, 143, 159, 160, 175, 176, 191, 192, 194, 223, 224, 225, 236, 237, 238, 239, 240, 255 }
Small4 == { 65, 128, 160, 191, 195, 224, 237 }
Str(s) == Bare(<< Utf(s), Utf(<< 122 >>) >>)
SurEdge == { 159, 160, 175, 176, 191, 128, 127, 192 }
C04Cases(x_) ==
     { Str(s) : s \in Strings(Edge, 2) }
  \cup { Str(<< a, b, c >>) : a \in { 65, 192, 195, 223, 224, 226, 237, 239, 240, 128 }, b \in Edge, c \in Edge }
  \cup { Str(s) : s \in [ 1..4 -> Small4 ] }
  \* surrogate pairs, good and bad
  \cup { Str(<< 237, a, b, x, c, d >>) : a \in SurEdge, b \in { 128, 191, 127 }, x \in { 237, 238, 65 },
                                       c \in SurEdge, d \in { 128, 191, 192 } }
  \cup { Str(<< 237, 160 + (h \div 64), 128 + (h % 64), 237, 176 + (l \div 64), 128 + (l % 64) >>)
         : h \in { 0, 1, 2, 4, 31, 32, 63, 64, 127, 128, 256, 511, 512, 1023 },
           l \in { 0, 1, 2, 32, 63, 64, 65, 128, 256, 512, 1023 } }
  \cup { Str(<< 237, 160, 128 >> \o s) : s \in Strings({ 65, 128, 176, 237, 195 }, 3) }
  \cup { Str(<< 65, 237, 161, 140, 237, 190, 180, 90 >> \o s) : s \in Strings({ 66, 128, 237, 195 }, 2) }
  \* the same decoder for the debug extension, with the length of its extent
  \cup { With("class", "SourceDebugExtension", s) : s \in Strings({ 0, 65, 128, 195, 224, 237, 160, 240 }, 3) }
  \cup { With("class", "SourceDebugExtension", << 237, 160 + h, 128, 237, 176 + h, 191 >>) : h \in 0..15 }

-----------------------------------------------------------------------------
(* Skeleton (C05) *)
Marker(i) == Attr(1, << i >>)
C05Cases(x_) ==
     { File(<< Name("Foo") >>, 4660, 22136, 39612, [ k \in 1..i |-> Pat(2, 30 * k) ],
            [ k \in 1..f |-> Member(k, 1000 + k, 2000 + k, [ j \in 1..((k + a) % 3) |-> Marker(10 * k + j) ]) ],
            [ k \in 1..g |-> Member(256 * k, 3000 + k, 4000 + k, [ j \in 1..((k * a) % 3) |-> Marker(100 + 10 * k + j) ]) ],
            [ k \in 1..a |-> Marker(200 + k) ])
       : i \in 0..3, f \in 0..3, g \in 0..3, a \in 0..3 }
  \cup { [ File(<<>>, 33, 1, 2, <<>>, <<>>, <<>>, <<>>) EXCEPT ![p] = x ]
         : p \in 1..8, x \in { 0, 1, 186, 190, 202, 254, 255 } }
  \* a count one too large or one too small in each list
  \cup { [ File(<< Name("Foo") >>, 33, 1, 2, << U(9) >>, << Member(1, 2, 3, <<>>) >>,
                << Member(4, 5, 6, <<>>) >>, << Marker(1) >>) EXCEPT ![p] = x ]
         : p \in 10..58, x \in { 0, 1, 2, 3 } }

-----------------------------------------------------------------------------
(* Attribute extents (C06) *)
Claims(n) == { L(n + d) : d \in { x \in -4..4 : n + x >= 0 } }
             \cup { << 0, 1, 0, n >>, << 0, 0, 1, n >>, << 128, 0, 0, n >>, << 255, 255, 255, 255 >>, << 127, 255, 255, 255 >>, << 1, 0, 0, 0 >> }
C06Kinds == PredefinedKinds \cup { "Foo" }
C06Cases(x_) ==
     UNION { { Around(ctx, k, AttrClaim(1, c, Content(k, 2) \o pad)) : c \in Claims(Len(Content(k, 2))) }
             : ctx \in { "class", "code" }, k \in C06Kinds, pad \in { <<>>, << 0, 0, 0 >> } }
  \cup UNION { { With("class", k, Prefix(Content(k, 3), n)) : n \in 0..Len(Content(k, 3)) } : k \in C06Kinds }
  \* an extent that is empty or too short, with what would do as content after it
  \cup UNION { { Around(ctx, k, AttrClaim(1, L(d), Content(k, n) \o pad))
                 : d \in 0..(IF Len(Content(k, n)) < 10 THEN Len(Content(k, n)) ELSE 10), pad \in { <<>>, << 0, 0 >>, Attr(2, << 1, 2 >>) } }
               : ctx \in { "class", "field", "code" }, k \in C06Kinds, n \in 0..2 }
  \* an attribute inside code inside a method: inner extents against outer ones
  \cup { In("method", << Name("Code"), Name("Foo") >>,
            AttrClaim(1, L(8 + 1 + 2 + 2 + 6 + 3 + outer),
              U(1) \o U(1) \o L(1 + code) \o << 177 >> \o U(0) \o U(1) \o AttrClaim(2, L(3 + inner), << 1, 2, 3 >>) \o tail))
         : outer \in -3..3, inner \in -3..4, code \in { -1, 0, 1, 2 }, tail \in { <<>>, << 9, 9, 9 >> } }
  \* what follows an attribute is read from the end of its extent
  \cup { File(<< Name("Foo"), Name(k) >>, 33, 3, 4, <<>>, <<>>, <<>>,
              << Attr(2, Content(k, n)), Attr(1, << 9, 8, 7 >>), Attr(2, Content(k, 1)) >>)
         : k \in C06Kinds, n \in 0..2 }
  \cup { File(<< Name("Foo") >>, 33, 3, 4, <<>>, <<>>, <<>>, << Attr(1, Pat(n, n)) >>) : n \in 0..40 }

-----------------------------------------------------------------------------
(* Predefined attributes (C07) *)
NearNames == { "EnclosingMethods", "CodeX", "Cod", "code", "Exception", "Signatures", "InnerClass",
  "LocalVariablesTable", "ModulePackage", "Modules", "RuntimeVisibleAnnotation", "sourceFile",
  "SourceFileX", "DeprecatedX", "Syntheti", "BootstrapMethod", "MethodParameter", "StackMap",
  "NestHost", "Record", "PermittedSubclasses", "ModuleTarget", "ConstantValues", "A" }
C07Cases(x_) ==
     { With(ctx, k, Content(k, n)) : ctx \in Contexts, k \in PredefinedKinds, n \in 0..3 }
  \cup { With("class", k, Content(k, n)) : k \in PredefinedKinds \ { "SourceDebugExtension" }, n \in { 5, 9 } }
  \cup { With("class", k, Pat(n, 3)) : k \in NearNames, n \in 0..6 }
  \cup { With("class", "Module", ModuleBody(a, b, c, d, e)) : a \in 0..2, b \in 0..2, c \in 0..2, d \in 0..2, e \in 0..2 }
  \cup { With("class", "BootstrapMethods",
           Counted([ i \in 1..Len(s) |-> HeadList(1, s[i], 60 * i) ])) : s \in Strings(0..3, 3) }
  \cup { With(ctx, k, s) : ctx \in { "method" }, k \in OneFieldKinds, s \in Strings({ 0, 1, 2, 128, 255 }, 2) }
  \cup { With("method", "MethodParameters", << n >> \o Pat(4 * n, 9)) : n \in { 4, 16, 60 } }
  \* the name is looked up in the pool: same text at another index, text that is no Utf8 entry
  \cup { In("class", << << 7, 0, 2 >>, Name("SourceFile"), Name("SourceFile"), << 3, 0, 0, 0, 1 >> >>, Attr(i, << 1, 2 >>))
         : i \in 0..6 }
  \cup { In("class", << << 5 >> \o Pat(8, 0), Name("Signature"), << 6 >> \o Pat(8, 0), Name("SourceFile") >>, Attr(i, << 1, 2 >>))
         : i \in 0..8 }

-----------------------------------------------------------------------------
(* Bytecode (C08, C09, C10) *)
Method(code) == In("method", << Name("Code") >>, Attr(1, CodeBody(code, <<>>, <<>>)))
InsnSample == { << 0 >>, << 16, 200 >>, << 17, 1, 2 >>, << 200, 0, 1, 2, 3 >>, << 196, 21, 1, 2 >>,
                << 196, 132, 1, 2, 3, 4 >>, << 185, 1, 2, 3, 0 >>, << 197, 1, 2, 3 >> }
SwitchAt(pos, n) ==
  << 171 >> \o Rep(0, 3 - (pos % 4)) \o Pat(4, 3) \o L(n) \o Cat([ i \in 1..n |-> L(i) \o Pat(4, 40 * i) ])
TSwitchAt(pos, n) ==
  << 170 >> \o Rep(0, 3 - (pos % 4)) \o Pat(4, 3) \o L(1) \o L(n) \o Pat(4 * n, 40)
C08Claim(code, d) ==
  In("method", << Name("Code") >>,
     Attr(1, U(1) \o U(2) \o L(Len(code) + d) \o code \o U(0) \o U(0)))
C08Cases(x_) ==
     { Method(Cat(s) \o << 177 >>) : s \in UNION { [ 1..k -> InsnSample ] : k \in 0..3 } }
  \cup { Method(Cat(s)) : s \in UNION { [ 1..k -> InsnSample ] : k \in 1..2 } }
  \cup { C08Claim(Cat(s) \o << 177 >>, d) : s \in UNION { [ 1..k -> InsnSample ] : k \in 0..2 }, d \in { -2, -1, 1, 2, 4 } \cup {0} }
  \cup { Method(Rep(0, a) \o SwitchAt(a, n) \o t \o << 177 >>) : a \in 0..5, n \in 0..3, t \in { <<>>, << 4 >>, << 16, 9 >> } }
  \cup { Method(Rep(0, a) \o TSwitchAt(a, n) \o t \o << 177 >>) : a \in 0..5, n \in 1..4, t \in { <<>>, << 4 >>, << 16, 9 >> } }
  \* a switch right after a switch: alignment is relative to the method, not to the file
  \cup { LET s == Rep(0, a) \o SwitchAt(a, n) IN Method(s \o Rep(0, g) \o TSwitchAt(Len(s) + g, 2) \o << 177 >>)
         : a \in 0..3, n \in 0..2, g \in 0..3 }
  \cup { In("method", << Name("Code"), Name("Foo") >>,
            Attr(1, CodeBody(Rep(0, c) \o << 177 >>, [ i \in 1..e |-> Pat(8, 70 * i) ], [ i \in 1..a |-> Attr(2, Pat(i, i)) ])))
         : c \in 0..4, e \in 0..3, a \in 0..3 }
  \cup { In("method", << Name("Code") >>, Attr(1, U(1) \o U(2) \o c \o << 177 >> \o U(0) \o U(0)))
         : c \in { L(0), L(1), L(2), << 255, 255, 255, 255 >>, << 128, 0, 0, 1 >>, << 0, 1, 0, 0 >>, << 0, 1, 0, 1 >> } }
  \cup { Method(s) : s \in Strings({ 0, 16, 17, 196, 132, 200, 177 }, 4) }

OperandLen(op) ==
  LET f == Format(op) IN
  CASE f \in {"u1", "s1", "narr"} -> 1 [] f \in {"u2", "s2", "iinc"} -> 2 [] f = "mana" -> 3
    [] f \in {"s4", "ifc", "indy"} -> 4 [] OTHER -> 0
OperandFills == { Rep(0, 4), Rep(255, 4), << 128, 0, 0, 0 >>, << 127, 255, 255, 255 >>, Pat(4, 0), Pat(4, 140),
                  << 4, 130, 0, 0 >>, << 131, 5, 6, 0 >>, << 0, 128, 127, 0 >>, << 11, 0, 128, 1 >> }
Trail == << 4, 5, 87, 177 >>
WideFills == { Rep(0, 4), Rep(255, 4), << 128, 0, 128, 0 >>, Pat(4, 0), << 0, 255, 255, 0 >>, << 1, 0, 127, 255 >> }
C09Cases(x_) ==
     { Method(Rep(0, a) \o << op >> \o SubSeq(f, 1, OperandLen(op)) \o Trail)
       : a \in 0..1, op \in (0..255) \ { 170, 171, 196 }, f \in OperandFills }
  \cup { Method(<< 196, op >> \o SubSeq(f, 1, IF op = 132 THEN 4 ELSE 2) \o Trail) : op \in 0..255, f \in WideFills }
  \cup { Method(<< 188, t >> \o Trail) : t \in 0..255 }
  \cup { Method(<< 3, op >> \o SubSeq(Pat(4, 5), 1, k)) : op \in (0..255) \ { 170, 171, 196 }, k \in 0..3 }
  \cup { Method(<< 16, x >> \o Trail) : x \in 0..255 }
  \cup { Method(<< 132, x, y >> \o Trail) : x \in { 0, 1, 127, 128, 255 }, y \in { 0, 1, 127, 128, 129, 255 } }

Int4 == << << 128, 0, 0, 0 >>, << 128, 0, 0, 1 >>, << 255, 255, 255, 254 >>, << 255, 255, 255, 255 >>,
           << 0, 0, 0, 0 >>, << 0, 0, 0, 1 >>, << 0, 0, 0, 2 >>, << 0, 0, 0, 3 >>, << 0, 0, 255, 255 >>,
           << 0, 1, 0, 0 >>, << 127, 255, 255, 254 >>, << 127, 255, 255, 255 >> >>
Pads(a) == { Rep(0, 3 - (a % 4)), Rep(255, 3 - (a % 4)) }
C10Cases(x_) ==
     UNION { { Method(Rep(0, a) \o << 170 >> \o p \o Pat(4, 90) \o Int4[lo] \o Int4[hi] \o Pat(4 * n, 20) \o << 177 >>)
               : p \in Pads(a), n \in (IF lo = hi THEN { 1 } ELSE { IF hi >= lo THEN (IF hi - lo < 6 THEN hi - lo + 1 ELSE 3) ELSE 1 }) \cup { 2 } }
             : a \in 0..4, lo \in 1..Len(Int4), hi \in 1..Len(Int4) }
  \cup UNION { { Method(Rep(0, a) \o << 170 >> \o p \o Pat(4, 90) \o Int4[lo] \o Int4[lo + 1] \o Pat(8, d) \o << 177 >>)
               : p \in Pads(a), d \in { 0, 100, 150, 200 } } : a \in 0..4, lo \in { 1, 3, 4, 5, 6, 7, 9, 11 } }
  \cup UNION { { Method(Rep(0, a) \o << 171 >> \o p \o Pat(4, 90) \o L(Cardinality(ks))
                        \o Cat([ i \in 1..Cardinality(ks) |-> Int4[SetToSortSeq(ks, <)[i]] \o Pat(4, 50 * i + o) ]) \o << 177 >>)
               : p \in Pads(a), ks \in { s \in SUBSET (1..Len(Int4)) : Cardinality(s) <= 2 }, o \in { 0, 120 } }
             : a \in 0..3 }
  \cup UNION { { Method(Rep(0, a) \o << 171 >> \o p \o Pat(4, 90) \o n \o Pat(16, 0) \o << 177 >>)
               : p \in Pads(a), n \in { L(1), L(2), L(3), L(65535), << 128, 0, 0, 0 >>, << 255, 255, 255, 255 >>, << 32, 0, 0, 0 >>, << 0, 1, 0, 0 >> } }
             : a \in 0..3 }
  \cup UNION { { Method(Rep(0, a) \o Prefix(<< 170 >> \o Rep(0, 3 - (a % 4)) \o L(7) \o L(1) \o L(2) \o L(11) \o L(12), k)) : k \in 1..24 } : a \in 0..3 }
  \cup UNION { { Method(Rep(0, a) \o Prefix(<< 171 >> \o Rep(0, 3 - (a % 4)) \o L(7) \o L(2) \o L(1) \o L(2) \o L(11) \o L(12), k)) : k \in 1..28 } : a \in 0..3 }

-----------------------------------------------------------------------------
(* Stack map frames (C11) *)
VT(t, o) == IF t \in {7, 8} THEN << t >> \o Pat(2, o) ELSE << t >>
Frames(fs) == With("code", "StackMapTable", Counted(fs))
FrameTail(t, v) ==
  CASE t <= 63 -> <<>> [] t <= 127 -> v [] t <= 246 -> <<>>
    [] t = 247 -> Pat(2, 33) \o v [] t <= 251 -> Pat(2, 33)
    [] t <= 254 -> Pat(2, 33) \o Cat([ i \in 1..(t - 251) |-> v ])
    [] OTHER -> Pat(2, 33) \o U(1) \o v \o U(2) \o v \o VT(8, 99)
C11Cases(x_) ==
     { Frames(<< << t >> \o FrameTail(t, VT(v, 5)), << 0 >> >>) : t \in 0..255, v \in { 0, 1, 7, 8 } }
  \cup { Frames(<< << t >> \o FrameTail(t, VT(v, 5)), << 251, 1, 2 >> >>) : t \in { 64, 127, 247, 252, 255 }, v \in 0..255 }
  \cup { Frames(<< << 252 + n >> \o Pat(2, 7) \o Cat([ i \in 1..(n + 1) |-> VT(s[i], 40 * i) ]), << 3 >> >>)
         : n \in 0..2, s \in [ 1..3 -> { 0, 1, 2, 3, 4, 5, 6, 7, 8 } ] }
  \cup { Frames(<< << 255 >> \o Pat(2, 7) \o Counted([ i \in 1..Len(l) |-> VT(l[i], 20 * i) ])
                   \o Counted([ i \in 1..Len(s) |-> VT(s[i], 100 + 20 * i) ]) >>)
         : l \in Strings({ 1, 6, 7 }, 2), s \in Strings({ 0, 5, 8 }, 3) }
  \cup { Frames([ i \in 1..Len(s) |-> << s[i] >> \o FrameTail(s[i], VT(7, i)) ]) : s \in Strings({ 0, 63, 64, 247, 248, 250, 251, 252, 254, 255 }, 2) }
  \cup { With("code", "StackMapTable", U(n) \o s) : n \in 0..2, s \in Strings({ 0, 7, 64, 128, 247, 251, 252 }, 3) }

-----------------------------------------------------------------------------
(* Annotations (C12) *)
Prim == { << 66 >> \o Pat(2, 1), << 101 >> \o Pat(4, 21) }
AnnOf(vs, o) == Pat(2, o) \o Counted([ i \in 1..Len(vs) |-> Pat(2, o + 20 * i) \o vs[i] ])
ArrayOf(vs) == << 91 >> \o Counted(vs)
SeqsUpTo(S, n) == UNION { [ 1..k -> S ] : k \in 0..n }
V1(x_) == Prim \cup { ArrayOf(s) : s \in SeqsUpTo(Prim, 2) } \cup { << 64 >> \o AnnOf(s, 70) : s \in SeqsUpTo(Prim, 1) }
V2(x_) == V1(0) \cup { ArrayOf(s) : s \in SeqsUpTo(V1(0), 2) } \cup { << 64 >> \o AnnOf(s, 150) : s \in SeqsUpTo(V1(0), 2) }
ValuePayload(t) == IF t = 101 THEN Pat(4, 3) ELSE IF t = 64 THEN Pat(2, 9) \o U(0) ELSE IF t = 91 THEN U(0) ELSE Pat(2, 3)
RECURSIVE NestA(_), NestB(_), NestC(_)
NestA(n) == IF n = 0 THEN << 73, 1, 2 >> ELSE << 91, 0, 1 >> \o NestA(n - 1)
NestB(n) == IF n = 0 THEN << 73, 1, 2 >> ELSE << 64, 0, 1, 0, 1, 0, 2 >> \o NestB(n - 1)
NestC(n) == IF n = 0 THEN << 73, 1, 2 >> ELSE << 91, 0, 2, 90, 0, n % 256, 64, 0, 1, 0, 1, 0, 2 >> \o NestC(n - 1)
C12Cases(x_) ==
     { With("method", "AnnotationDefault", << t >> \o ValuePayload(t)) : t \in 0..255 }
  \cup { With("method", "RuntimeVisibleAnnotations", U(1) \o Pat(2, 4) \o U(2) \o Pat(2, 8) \o << t >> \o ValuePayload(t) \o Pat(2, 12) \o << 67, 0, 9 >>) : t \in 0..255 }
  \cup { With("method", "AnnotationDefault", v) : v \in V2(0) }
  \cup { With(ctx, k, Counted(s)) : ctx \in { "class", "field" }, k \in AnnKinds,
         s \in SeqsUpTo({ AnnOf(<<>>, 5), AnnOf(<< << 73, 1, 2 >> >>, 25), AnnOf(<< << 115, 3, 4 >>, ArrayOf(<< << 90, 5, 6 >> >>) >>, 45) }, 3) }
  \cup { With("method", k, Counted1(s)) : k \in ParamAnnKinds,
         s \in SeqsUpTo({ Counted(<<>>), Counted(<< AnnOf(<<>>, 5) >>), Counted(<< AnnOf(<< << 73, 1, 2 >> >>, 25), AnnOf(<<>>, 7) >>) }, 3) }
  \cup { With("method", "AnnotationDefault", NestA(n)) : n \in { 3, 10, 24, 45, 47 } }
  \cup { With("method", "AnnotationDefault", NestB(n)) : n \in { 3, 10, 24, 45, 47 } }
  \cup { With("method", "AnnotationDefault", NestC(n)) : n \in { 3, 10, 20, 23 } }
  \cup { With("method", "AnnotationDefault", s) : s \in Strings({ 0, 1, 66, 64, 91 }, 4) }
  \cup { With("method", "RuntimeInvisibleParameterAnnotations", s) : s \in Strings({ 0, 1, 2, 73 }, 5) }

-----------------------------------------------------------------------------
(* Type annotations (C13) *)
TargetBody(t) ==
  CASE t \in { 0, 1, 22 } -> Pat(1, 33) [] t \in { 16, 17, 18, 23 } \cup (66..70) -> Pat(2, 33)
    [] t \in 71..75 -> Pat(3, 33) [] t \in { 64, 65 } -> U(2) \o Pat(12, 33) [] OTHER -> <<>>
TypeAnn(t, body, path, ann) == << t >> \o body \o Counted1(path) \o ann
TAs(ctx, k, as) == With(ctx, k, Counted(as))
Ann0 == AnnOf(<<>>, 5)
Ann1 == AnnOf(<< << 73, 1, 2 >> >>, 25)
C13Cases(x_) ==
     { TAs(ctx, k, << TypeAnn(t, TargetBody(t), <<>>, Ann1), TypeAnn(19, <<>>, << << 0, 0 >> >>, Ann0) >>)
       : ctx \in { "class", "code" }, k \in TypeAnnKinds, t \in 0..255 }
  \cup { TAs("code", "RuntimeVisibleTypeAnnotations", << TypeAnn(t, f, <<>>, Ann0) >>)
         : t \in { 0, 1, 22, 16, 23, 17, 18 } \cup (66..75),
           f \in { Rep(0, 1), Rep(255, 1), Rep(0, 2), << 255, 254 >>, << 128, 127 >>, << 1, 0 >>, Rep(255, 3), << 128, 0, 1 >>, << 0, 255, 0 >> } }
  \cup { TAs("code", "RuntimeInvisibleTypeAnnotations", << TypeAnn(t, U(n) \o Pat(6 * n, 9), p, Ann1) >>)
         : t \in { 64, 65 }, n \in 0..5, p \in { <<>>, << << 3, 7 >> >> } }
  \cup { TAs("code", "RuntimeVisibleTypeAnnotations", << TypeAnn(64, << n >> \o Pat(6 * n, 9), <<>>, Ann1) >>) : n \in 0..3 }
  \cup { TAs("field", "RuntimeVisibleTypeAnnotations", << TypeAnn(19, <<>>, p, Ann1) >>)
         : p \in SeqsUpTo({ << k, i >> : k \in 0..4, i \in { 0, 1, 255 } }, 2) }
  \cup { TAs("field", "RuntimeVisibleTypeAnnotations", << TypeAnn(19, <<>>, << << k, i >> >>, Ann1) >>) : k \in 0..255, i \in { 0, 9 } }
  \cup { TAs("field", "RuntimeVisibleTypeAnnotations", << TypeAnn(22, << 3 >>, [ i \in 1..n |-> << i % 4, (i * 37) % 256 >> ], Ann1) >>) : n \in { 3, 17, 100, 255 } }
  \cup { TAs("field", "RuntimeVisibleTypeAnnotations", s)
         : s \in SeqsUpTo({ TypeAnn(20, <<>>, <<>>, Ann0), TypeAnn(16, << 1, 2 >>, << << 1, 2 >> >>, Ann1), TypeAnn(71, << 1, 2, 3 >>, << << 2, 5 >>, << 3, 4 >> >>, Ann0) }, 2) }

-----------------------------------------------------------------------------
(* Rich valid files, all of their prefixes (C14), and single-byte damage (C15) *)
Rich(x_) == <<
  File(<< Name("Foo"), << 5 >> \o Pat(8, 1), << 3, 1, 2, 3, 4 >>, << 15, 6, 0, 1 >>, << 12, 0, 1, 0, 1 >>, Utf(<< 195, 169, 237, 161, 140, 237, 190, 180 >>) >>,
       33, 1, 2, << U(1), U(2) >>, << Member(1, 1, 1, << Marker(5) >>) >>, << Member(1, 1, 1, <<>>), Member(8, 1, 1, << Marker(7), Marker(8) >>) >>, << Marker(9) >>),
  With("class", "Module", ModuleBody(1, 2, 2, 1, 1)),
  With("class", "BootstrapMethods", Content("BootstrapMethods", 2)),
  In("method", << Name("Code"), Name("StackMapTable"), Name("LineNumberTable") >>,
     Attr(1, CodeBody(<< 0 >> \o SwitchAt(1, 1) \o << 196, 132, 0, 1, 0, 2, 185, 0, 1, 1, 0, 177 >>, << Pat(8, 1) >>,
       << Attr(2, Counted(<< << 255 >> \o Pat(2, 7) \o U(1) \o VT(7, 3) \o U(1) \o VT(1, 0), << 64, 8, 0, 1 >>, << 253, 0, 3, 1, 2 >> >>)), Attr(3, Table(2, 2)) >>))),
  In("method", << Name("Code"), Name("Foo") >>, Attr(1, CodeBody(<< 3 >> \o TSwitchAt(1, 2) \o << 17, 1, 2, 200, 0, 0, 0, 4, 177 >>, <<>>, << Attr(2, << 1 >>) >>))),
  With("field", "RuntimeVisibleAnnotations", Counted(<< AnnOf(<< ArrayOf(<< << 73, 1, 2 >>, << 101, 1, 2, 3, 4 >> >>), << 64 >> \o AnnOf(<< << 115, 0, 1 >> >>, 9) >>, 20) >>)),
  With("code", "RuntimeInvisibleTypeAnnotations", Counted(<< TypeAnn(64, U(1) \o Pat(6, 3), << << 3, 1 >> >>, Ann1), TypeAnn(71, << 1, 2, 3 >>, <<>>, Ann0) >>)),
  With("method", "RuntimeVisibleParameterAnnotations", Content("RuntimeVisibleParameterAnnotations", 3)),
  With("method", "MethodParameters", Content("MethodParameters", 3)),
  With("class", "InnerClasses", Content("InnerClasses", 2)) >>

C14Cases(x_) ==
     UNION { { SubSeq(Rich(0)[r], 1, k) : k \in 0..Len(Rich(0)[r]) } : r \in 1..Len(Rich(0)) }
  \cup UNION { UNION { { LET f == With(ctx, kind, Content(kind, 2)) IN SubSeq(f, 1, k)
                 : k \in { x \in 1..120 : x <= Len(With(ctx, kind, Content(kind, 2)))
                                          /\ x >= Len(With(ctx, kind, Content(kind, 2))) - (2 * Len(Content(kind, 2)) + 20) } }
               : kind \in PredefinedKinds } : ctx \in { "class", "code" } }

BadContents == {
  << "RuntimeVisibleTypeAnnotations", Counted(<< << 19, 2, 0, 0, 4, 1 >> \o Ann1 >>) >>,
  << "RuntimeInvisibleTypeAnnotations", Counted(<< << 19, 0 >> \o Ann1, << 20, 1, 9, 1 >> \o Ann1 >>) >>,
  << "RuntimeVisibleTypeAnnotations", Counted(<< << 19, 0 >> \o Ann1, << 24, 1, 2, 3, 4 >> >>) >>,
  << "RuntimeVisibleTypeAnnotations", Counted(<< << 64 >> \o U(1) \o Pat(6, 3) \o << 0 >> \o AnnOf(<< << 72, 1, 2 >> >>, 4) >>) >>,
  << "RuntimeVisibleAnnotations", Counted(<< AnnOf(<< << 73, 1, 2 >>, << 0, 1, 2 >> >>, 4) >>) >>,
  << "RuntimeInvisibleAnnotations", Counted(<< AnnOf(<< ArrayOf(<< << 73, 1, 2 >>, << 99, 1, 2 >>, << 100, 1, 2 >> >>) >>, 4) >>) >>,
  << "RuntimeInvisibleParameterAnnotations", << 2 >> \o U(0) \o Counted(<< AnnOf(<< << 64 >> \o AnnOf(<< << 255, 1, 2 >> >>, 9) >>, 4) >>) >>,
  << "AnnotationDefault", ArrayOf(<< << 101, 1, 2, 3, 4 >>, << 64 >> \o AnnOf(<< ArrayOf(<< << 84, 1, 2 >> >>) >>, 9) >>) >>,
  << "AnnotationDefault", << 1, 0, 1 >> >>,
  << "StackMapTable", Counted(<< << 0 >>, << 200, 1, 2, 3 >> >>) >>,
  << "StackMapTable", Counted(<< << 251, 0, 1 >>, << 128 >> >>) >>,
  << "StackMapTable", Counted(<< << 64, 9, 1, 2 >> >>) >>,
  << "StackMapTable", Counted(<< << 254, 0, 1, 7, 0, 1, 8, 0, 2, 10, 0, 3 >> >>) >>,
  << "StackMapTable", Counted(<< << 255, 0, 1, 0, 1, 1, 0, 2, 7, 0, 1, 255, 0, 1 >> >>) >>,
  << "SourceDebugExtension", << 65, 195, 169, 240, 159, 152, 128, 66 >> >> }
BadCode == { << 0, 203, 1, 2, 3 >>, << 3, 196, 0, 1, 2, 3 >>, << 4, 188, 3, 0, 0 >>, << 16, 9, 188, 12, 1 >>, << 0, 0, 255 >>,
  << 17, 1, 2, 196, 133, 0, 0 >>, << 0 >> \o << 170, 0, 0 >> \o L(1) \o L(5) \o L(3) \o L(1) \o L(2) \o << 177 >>,
  << 196, 132, 0, 1, 0, 2, 254 >>, << 185, 0, 1, 1, 0, 210, 0 >>, << 186, 0, 1, 0, 0, 196, 18, 0, 0 >> }
DamageBytes == IF Deep THEN { 0, 1, 2, 3, 16, 64, 127, 128, 200, 254, 255 } ELSE { 0, 2, 255 }
C15Cases(x_) ==
     UNION { { [ Rich(0)[r] EXCEPT ![p] = x ] : p \in 1..Len(Rich(0)[r]), x \in DamageBytes } : r \in 1..Len(Rich(0)) }
  \cup { Bare(<< << t, 0, 1, 97, 0, 3, 4, 5, 6 >> >>) : t \in 0..255 }
  \cup { Bare(<< Utf(<< 97 >>), << 5 >> \o Pat(8, 3), << 15, k >> \o Pat(2, 11) >>) : k \in 0..255 }
  \cup { Bare(<< << 5 >> \o Pat(8, 3), Utf(<< 97 >>), << 6 >> \o Pat(8, 3), << t, 0, 1 >> >>) : t \in { 0, 2, 13, 17, 21, 99 } }
  \cup { Method(Rep(0, a) \o << op, 1, 2, 3, 4 >>) : a \in { 0, 1, 2, 7 }, op \in { 186, 188, 196 } \cup (203..255) }
  \cup { Method(Rep(0, a) \o << 196, op, 1, 2, 3, 4 >>) : a \in { 0, 3 }, op \in 0..255 }
  \cup { Method(Rep(0, a) \o << 188, t >>) : a \in { 0, 3 }, t \in 0..255 }
  \cup { Frames(<< << 0 >>, << t >> \o FrameTail(t, << 1 >>) >>) : t \in 0..255 }
  \cup { Frames(<< << 64, t, 0, 0 >> >>) : t \in 0..255 }
  \cup { With("method", "AnnotationDefault", << 91, 0, 2, 73, 0, 1, t >> \o Pat(4, 0)) : t \in 0..255 }
  \cup { TAs("class", "RuntimeVisibleTypeAnnotations", << << t >> \o Pat(12, 0) >>) : t \in 0..255 }
  \cup { TAs("class", "RuntimeVisibleTypeAnnotations", << << 19, 2, 0, 0, k, 0 >> \o Ann0 >>) : k \in 0..255 }
  \cup { In("class", << Name("Foo"), << 5 >> \o Pat(8, 3), << 7, 0, 1 >> >>, Attr(i, <<>>)) : i \in { 0, 1, 2, 3, 4, 5, 6, 255, 256, 65535 } }
  \* a constant of every kind where an attribute's name should be, with parts that are indices as well
  \cup { In(ctx, << Name("Foo"), << t >> \o SubSeq(f, 1, CpWidth(t)), Name("Foo") >>, Attr(2, <<>>))
         : ctx \in { "class", "method" }, t \in KnownTags \cup { 15 },
           f \in { << 0, 1, 0, 1, 0, 1, 0, 1 >>, << 1, 0, 1, 0, 1, 0, 1, 0 >>, << 0, 3, 0, 3, 0, 3, 0, 3 >>, << 0, 2, 0, 2, 0, 2, 0, 2 >>, << 5, 0, 3, 0, 1, 0, 1, 0 >>, << 9, 9, 9, 9, 9, 9, 9, 9 >> } }
  \cup { With("class", "SourceDebugExtension", s) : s \in Strings({ 65, 195, 128, 240, 0 }, 3) }
  \cup UNION { { With("code", k, Prefix(Content(k, 2), n)) : n \in 0..Len(Content(k, 2)) } : k \in PredefinedKinds }
  \cup { Method(Prefix(c, k)) : c \in { << 16, 1 >>, << 17, 1, 2 >>, << 196, 132, 1, 2, 3, 4 >>, << 196, 21, 1, 2 >>, << 185, 1, 2, 3, 0 >>, << 186, 1, 2, 0, 0 >>, << 197, 1, 2, 3 >>, << 200, 1, 2, 3, 4 >>, << 132, 1, 2 >>, << 188, 4 >> }, k \in 1..6 }
  \* what is wrong lies anywhere before the end of its extent, and right at it
  \cup UNION { { With("code", c[1], Prefix(c[2], k)) : k \in 1..Len(c[2]) } : c \in BadContents }
  \cup UNION { { Method(Prefix(c, k)) : k \in 1..Len(c) } : c \in BadCode }
  \cup { SubSeq([ Rich(0)[1] EXCEPT ![p] = x ], 1, p) : p \in 11..70, x \in { 0, 2, 17, 128, 255 } }

-----------------------------------------------------------------------------
(* Access flags (C23) *)
FlagWords == { 2 ^ i : i \in 0..15 } \cup { 65535 - 2 ^ i : i \in 0..15 } \cup { 0, 65535, 32769, 43690, 21845, 4660, 48879 }
C23Cases(x_) ==
     { File(<< Name("Foo") >>, w, 1, 2, <<>>, << Member(65535 - w, 1, 1, <<>>) >>, << Member((w * 3) % 65536, 1, 1, <<>>) >>, <<>>) : w \in FlagWords }
  \cup { File(<< Name("Foo") >>, 0, 1, 2, <<>>, << Member(w, 1, 1, <<>>) >>, <<>>, <<>>) : w \in FlagWords }
  \cup { File(<< Name("Foo") >>, 0, 1, 2, <<>>, <<>>, << Member(w, 1, 1, <<>>) >>, <<>>) : w \in FlagWords }
  \cup { With("class", "InnerClasses", U(2) \o Pat(6, 3) \o U(w) \o Pat(6, 60) \o U(65535 - w)) : w \in FlagWords }
  \cup { With("method", "MethodParameters", << 2 >> \o Pat(2, 3) \o U(w) \o Pat(2, 60) \o U(65535 - w)) : w \in FlagWords }
  \cup { With("class", "Module", Pat(2, 3) \o U(w) \o Pat(2, 9) \o U(1) \o Pat(2, 13) \o U(65535 - w) \o Pat(2, 19)
           \o U(1) \o Pat(2, 30) \o U((w * 5) % 65536) \o U(0) \o U(1) \o Pat(2, 40) \o U((w * 3) % 65536) \o U(0) \o U(0) \o U(0)) : w \in FlagWords }

-----------------------------------------------------------------------------
(* Totality (C01): hostile claims and nesting.  Deep nesting is generated      *)
(* outside (TLC recursion), see tools.                                         *)
HugeCounts == { 65535, 256, 255 }
C01Cases(x_) ==
     { Header \o s : s \in Strings({ 0, 1, 3, 5, 255 }, 4) }
  \cup Strings({ 0, 202, 254, 186, 190 }, 4)
  \cup { With(ctx, k, s) : ctx \in { "class", "code" }, k \in C06Kinds, s \in Strings({ 0, 1, 255 }, 3) }
  \cup { Around("class", k, AttrClaim(1, c, s)) : k \in C06Kinds, s \in { <<>>, << 255, 255 >>, Pat(9, 0) },
         c \in { << 255, 255, 255, 255 >>, << 128, 0, 0, 0 >>, << 0, 0, 255, 255 >> } }
  \cup { In(ctx, << Name("Code"), << 5 >> \o Pat(8, 0) >>, Attr(i, << 1, 2, 3 >>)) : ctx \in Contexts, i \in { 0, 2, 3, 4, 5, 255, 256, 65534, 65535 } }
  \cup { Header \o U(n) \o << 5 >> \o Pat(8, 0) \o s : n \in { 0, 1, 2, 3, 4, 65535 }, s \in { <<>>, U(0) \o U(0) \o U(0) \o Rep(0, 8) } }

CasesFor(f) ==
  CASE f = "C01" -> C01Cases(0) [] f = "C02" -> C02Cases(0) [] f = "C03" -> C03Cases(0) [] f = "C04" -> C04Cases(0)
    [] f = "C05" -> C05Cases(0) [] f = "C06" -> C06Cases(0) [] f = "C07" -> C07Cases(0) [] f = "C08" -> C08Cases(0)
    [] f = "C09" -> C09Cases(0) [] f = "C10" -> C10Cases(0) [] f = "C11" -> C11Cases(0) [] f = "C12" -> C12Cases(0)
    [] f = "C13" -> C13Cases(0) [] f = "C14" -> C14Cases(0) [] f = "C15" -> C15Cases(0) [] f = "C23" -> C23Cases(0)
==============================================================================
