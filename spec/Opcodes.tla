------------------------------- MODULE Opcodes -------------------------------
(* The instruction set of the Java virtual machine (JVMS SE 9, chapter 6 and   *)
(* 7): for each opcode 0..255 its mnemonic and operand format.  The library    *)
(* merges encodings of the same instruction: ldc/ldc_w/ldc2_w, goto/goto_w,    *)
(* jsr/jsr_w and the wide forms.  "" marks an undefined opcode.                *)
EXTENDS Integers, Sequences

OpTable == <<
  <<"I.nop", "">>, <<"I.aconst_null", "">>, <<"I.iconst_m1", "">>, <<"I.iconst_0", "">>,
  <<"I.iconst_1", "">>, <<"I.iconst_2", "">>, <<"I.iconst_3", "">>, <<"I.iconst_4", "">>,
  <<"I.iconst_5", "">>, <<"I.lconst_0", "">>, <<"I.lconst_1", "">>, <<"I.fconst_0", "">>,
  <<"I.fconst_1", "">>, <<"I.fconst_2", "">>, <<"I.dconst_0", "">>, <<"I.dconst_1", "">>,
  <<"I.bipush", "s1">>, <<"I.sipush", "s2">>, <<"I.ldc", "u1">>, <<"I.ldc", "u2">>,
  <<"I.ldc", "u2">>, <<"I.iload", "u1">>, <<"I.lload", "u1">>, <<"I.fload", "u1">>,
  <<"I.dload", "u1">>, <<"I.aload", "u1">>, <<"I.iload_0", "">>, <<"I.iload_1", "">>,
  <<"I.iload_2", "">>, <<"I.iload_3", "">>, <<"I.lload_0", "">>, <<"I.lload_1", "">>,
  <<"I.lload_2", "">>, <<"I.lload_3", "">>, <<"I.fload_0", "">>, <<"I.fload_1", "">>,
  <<"I.fload_2", "">>, <<"I.fload_3", "">>, <<"I.dload_0", "">>, <<"I.dload_1", "">>,
  <<"I.dload_2", "">>, <<"I.dload_3", "">>, <<"I.aload_0", "">>, <<"I.aload_1", "">>,
  <<"I.aload_2", "">>, <<"I.aload_3", "">>, <<"I.iaload", "">>, <<"I.laload", "">>,
  <<"I.faload", "">>, <<"I.daload", "">>, <<"I.aaload", "">>, <<"I.baload", "">>,
  <<"I.caload", "">>, <<"I.saload", "">>, <<"I.istore", "u1">>, <<"I.lstore", "u1">>,
  <<"I.fstore", "u1">>, <<"I.dstore", "u1">>, <<"I.astore", "u1">>, <<"I.istore_0", "">>,
  <<"I.istore_1", "">>, <<"I.istore_2", "">>, <<"I.istore_3", "">>, <<"I.lstore_0", "">>,
  <<"I.lstore_1", "">>, <<"I.lstore_2", "">>, <<"I.lstore_3", "">>, <<"I.fstore_0", "">>,
  <<"I.fstore_1", "">>, <<"I.fstore_2", "">>, <<"I.fstore_3", "">>, <<"I.dstore_0", "">>,
  <<"I.dstore_1", "">>, <<"I.dstore_2", "">>, <<"I.dstore_3", "">>, <<"I.astore_0", "">>,
  <<"I.astore_1", "">>, <<"I.astore_2", "">>, <<"I.astore_3", "">>, <<"I.iastore", "">>,
  <<"I.lastore", "">>, <<"I.fastore", "">>, <<"I.dastore", "">>, <<"I.aastore", "">>,
  <<"I.bastore", "">>, <<"I.castore", "">>, <<"I.sastore", "">>, <<"I.pop", "">>,
  <<"I.pop2", "">>, <<"I.dup", "">>, <<"I.dup_x1", "">>, <<"I.dup_x2", "">>,
  <<"I.dup2", "">>, <<"I.dup2_x1", "">>, <<"I.dup2_x2", "">>, <<"I.swap", "">>,
  <<"I.iadd", "">>, <<"I.ladd", "">>, <<"I.fadd", "">>, <<"I.dadd", "">>,
  <<"I.isub", "">>, <<"I.lsub", "">>, <<"I.fsub", "">>, <<"I.dsub", "">>,
  <<"I.imul", "">>, <<"I.lmul", "">>, <<"I.fmul", "">>, <<"I.dmul", "">>,
  <<"I.idiv", "">>, <<"I.ldiv", "">>, <<"I.fdiv", "">>, <<"I.ddiv", "">>,
  <<"I.irem", "">>, <<"I.lrem", "">>, <<"I.frem", "">>, <<"I.drem", "">>,
  <<"I.ineg", "">>, <<"I.lneg", "">>, <<"I.fneg", "">>, <<"I.dneg", "">>,
  <<"I.ishl", "">>, <<"I.lshl", "">>, <<"I.ishr", "">>, <<"I.lshr", "">>,
  <<"I.iushr", "">>, <<"I.lushr", "">>, <<"I.iand", "">>, <<"I.land", "">>,
  <<"I.ior", "">>, <<"I.lor", "">>, <<"I.ixor", "">>, <<"I.lxor", "">>,
  <<"I.iinc", "iinc">>, <<"I.i2l", "">>, <<"I.i2f", "">>, <<"I.i2d", "">>,
  <<"I.l2i", "">>, <<"I.l2f", "">>, <<"I.l2d", "">>, <<"I.f2i", "">>,
  <<"I.f2l", "">>, <<"I.f2d", "">>, <<"I.d2i", "">>, <<"I.d2l", "">>,
  <<"I.d2f", "">>, <<"I.i2b", "">>, <<"I.i2c", "">>, <<"I.i2s", "">>,
  <<"I.lcmp", "">>, <<"I.fcmpl", "">>, <<"I.fcmpg", "">>, <<"I.dcmpl", "">>,
  <<"I.dcmpg", "">>, <<"I.ifeq", "s2">>, <<"I.ifne", "s2">>, <<"I.iflt", "s2">>,
  <<"I.ifge", "s2">>, <<"I.ifgt", "s2">>, <<"I.ifle", "s2">>, <<"I.if_icmpeq", "s2">>,
  <<"I.if_icmpne", "s2">>, <<"I.if_icmplt", "s2">>, <<"I.if_icmpge", "s2">>, <<"I.if_icmpgt", "s2">>,
  <<"I.if_icmple", "s2">>, <<"I.if_acmpeq", "s2">>, <<"I.if_acmpne", "s2">>, <<"I.goto", "s2">>,
  <<"I.jsr", "s2">>, <<"I.ret", "u1">>, <<"I.tableswitch", "tsw">>, <<"I.lookupswitch", "lsw">>,
  <<"I.ireturn", "">>, <<"I.lreturn", "">>, <<"I.freturn", "">>, <<"I.dreturn", "">>,
  <<"I.areturn", "">>, <<"I.return", "">>, <<"I.getstatic", "u2">>, <<"I.putstatic", "u2">>,
  <<"I.getfield", "u2">>, <<"I.putfield", "u2">>, <<"I.invokevirtual", "u2">>, <<"I.invokespecial", "u2">>,
  <<"I.invokestatic", "u2">>, <<"I.invokeinterface", "ifc">>, <<"I.invokedynamic", "indy">>, <<"I.new", "u2">>,
  <<"I.newarray", "narr">>, <<"I.anewarray", "u2">>, <<"I.arraylength", "">>, <<"I.athrow", "">>,
  <<"I.checkcast", "u2">>, <<"I.instanceof", "u2">>, <<"I.monitorenter", "">>, <<"I.monitorexit", "">>,
  <<"I.wide", "wide">>, <<"I.multianewarray", "mana">>, <<"I.ifnull", "s2">>, <<"I.ifnonnull", "s2">>,
  <<"I.goto", "s4">>, <<"I.jsr", "s4">>, <<"I.breakpoint", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"", "">>, <<"", "">>,
  <<"", "">>, <<"", "">>, <<"I.impdep1", "">>, <<"I.impdep2", "">> >>

Mnemonic(op) == OpTable[op + 1][1]
Format(op)   == OpTable[op + 1][2]

(* opcodes that may follow `wide` *)
WideLocal == (21..25) \cup (54..58) \cup {169}
WideIinc  == 132

(* JVMS table 6.5.newarray-A *)
ArrayType == [t \in 4..11 |->
   <<"boolean", "char", "float", "double", "byte", "short", "int", "long">>[t - 3]]
==============================================================================
