-------------------------------- MODULE Focus --------------------------------
(* Which part of a parsed class a property speaks about: Keep selects events,  *)
(* View reduces them to what is compared.  CONSTANT Focus is a property id, or *)
(* "all".                                                                      *)
EXTENDS Integers, Sequences, Opcodes
CONSTANT Focus

InsnLabels == { Mnemonic(op) : op \in 0..255 } \ {""}
CpLabels == { "C.Utf8", "C.Integer", "C.Float", "C.Long", "C.Double", "C.Class", "C.String",
  "C.FieldRef", "C.MethodRef", "C.InterfaceMethodRef", "C.NameAndType", "C.MethodHandle",
  "C.MethodType", "C.InvokeDynamic", "C.Module", "C.Package", "C.none", "C.end", "C.other" }
MemberLabels == { "version", "class", "interfaces", "fields", "field", "methods", "method", "attrs" }
PlainAttrs == { "A.ConstantValue", "A.Deprecated", "A.EnclosingMethod", "A.Exceptions",
  "A.InnerClasses", "A.LineNumberTable", "A.LocalVariableTable", "A.LocalVariableTypeTable",
  "A.MethodParameters", "A.Module", "A.ModuleMainClass", "A.ModulePackages", "A.SourceFile",
  "A.Signature", "A.Synthetic", "A.SourceDebugExtension", "A.BootstrapMethods", "A.Unknown",
  "A.Code", "A.StackMapTable", "A.other" }
PartLabels == { "bsm", "requires", "exports", "export", "opens", "open", "uses", "provides", "provide" }
AnnAttrs == { "A.RuntimeVisibleAnnotations", "A.RuntimeInvisibleAnnotations",
  "A.RuntimeVisibleParameterAnnotations", "A.RuntimeInvisibleParameterAnnotations",
  "A.AnnotationDefault" }
TypeAnnAttrs == { "A.RuntimeVisibleTypeAnnotations", "A.RuntimeInvisibleTypeAnnotations" }
AnnLabels == { "ann", "pair", "value" }
AttrLabels == PlainAttrs \cup AnnAttrs \cup TypeAnnAttrs
FrameLabels == { "F.same", "F.same1", "F.chop", "F.append", "F.full", "F.other", "vt", "locals", "stack" }
FlagLabels == { "class", "field", "method", "A.InnerClasses", "A.MethodParameters", "A.Module",
  "requires", "export", "open" }

KeepSet ==
  CASE Focus \in { "C02", "C03" } -> CpLabels
    [] Focus = "C04" -> { "C.Utf8", "A.SourceDebugExtension" }
    [] Focus = "C05" -> MemberLabels \cup AttrLabels
    [] Focus = "C07" -> AttrLabels \cup PartLabels \cup { "attrs" }
    [] Focus = "C08" -> InsnLabels \cup { "A.Code", "exceptions", "attrs", "I.unknown" }
    [] Focus \in { "C09", "C10" } -> InsnLabels \cup { "I.unknown" }
    [] Focus = "C11" -> FrameLabels \cup { "A.StackMapTable" }
    [] Focus = "C12" -> AnnLabels \cup AnnAttrs \cup { "pann" }
    [] Focus = "C13" -> AnnLabels \cup TypeAnnAttrs \cup { "target", "path", "step" }
    [] Focus = "C23" -> FlagLabels
    [] OTHER -> {}

(* properties about the outcome only *)
OutcomeOnly == { "C01", "C14", "C15" }
Keep(e) == IF Focus \in { "all", "C06" } THEN TRUE
           ELSE IF Focus \in OutcomeOnly THEN FALSE ELSE e.l \in KeepSet

EveryNth(v, n, k) == [ i \in 1..(Len(v) \div n) |-> v[n * (i - 1) + k] ]
FlagsOf(e) ==
  CASE e.l \in { "class", "field", "method" } -> << e.v[1] >>
    [] e.l = "A.InnerClasses" -> <<>> \o EveryNth(e.v, 4, 4)
    [] e.l = "A.MethodParameters" -> <<>> \o EveryNth(e.v, 2, 2)
    [] e.l = "requires" -> <<>> \o EveryNth(e.v, 3, 2)
    [] OTHER -> << e.v[2] >>

View(e) ==
  CASE Focus = "C05" /\ e.l \in AttrLabels -> [ l |-> e.l, v |-> <<>> ]
    [] Focus = "C07" /\ e.l \in AnnAttrs \cup TypeAnnAttrs \cup { "A.Code", "A.StackMapTable" }
                     -> [ l |-> e.l, v |-> <<>> ]
    [] Focus = "C08" /\ e.l \in InsnLabels -> [ l |-> "I", v |-> << e.v[1] >> ]
    [] Focus = "C10" /\ e.l \notin { "I.tableswitch", "I.lookupswitch" }
                     -> [ l |-> "I", v |-> << e.v[1] >> ]
    [] Focus = "C23" -> [ l |-> e.l, v |-> FlagsOf(e) ]
    [] OTHER -> e

Seen(evs) == LET k == SelectSeq(evs, Keep) IN [ i \in 1..Len(k) |-> View(k[i]) ]
==============================================================================
