// Written once from the JVM mnemonics; maps each public instruction variant to its
// mnemonic and operands.
use jbcrs::basic::{ArrayType, Instruction as I};

fn halves(out: &mut Vec<i64>, v: i32) {
    out.push(((v as u32) >> 16) as i64);
    out.push((v as u32 & 0xFFFF) as i64);
}

#[allow(unreachable_patterns)]
pub fn flatten(insn: &I) -> (&'static str, Vec<i64>) {
    match *insn {
        I::NOP => ("I.nop", vec![]),
        I::AConstNull => ("I.aconst_null", vec![]),
        I::IConstM1 => ("I.iconst_m1", vec![]),
        I::IConst0 => ("I.iconst_0", vec![]),
        I::IConst1 => ("I.iconst_1", vec![]),
        I::IConst2 => ("I.iconst_2", vec![]),
        I::IConst3 => ("I.iconst_3", vec![]),
        I::IConst4 => ("I.iconst_4", vec![]),
        I::IConst5 => ("I.iconst_5", vec![]),
        I::LConst0 => ("I.lconst_0", vec![]),
        I::LConst1 => ("I.lconst_1", vec![]),
        I::FConst0 => ("I.fconst_0", vec![]),
        I::FConst1 => ("I.fconst_1", vec![]),
        I::FConst2 => ("I.fconst_2", vec![]),
        I::DConst0 => ("I.dconst_0", vec![]),
        I::DConst1 => ("I.dconst_1", vec![]),
        I::BIPush(ref a) => ("I.bipush", vec![*a as i64]),
        I::SIPush(ref a) => ("I.sipush", vec![*a as i64]),
        I::LDC(ref a) => ("I.ldc", vec![*a as i64]),
        I::ILoad(ref a) => ("I.iload", vec![*a as i64]),
        I::LLoad(ref a) => ("I.lload", vec![*a as i64]),
        I::FLoad(ref a) => ("I.fload", vec![*a as i64]),
        I::DLoad(ref a) => ("I.dload", vec![*a as i64]),
        I::ALoad(ref a) => ("I.aload", vec![*a as i64]),
        I::ILoad0 => ("I.iload_0", vec![]),
        I::ILoad1 => ("I.iload_1", vec![]),
        I::ILoad2 => ("I.iload_2", vec![]),
        I::ILoad3 => ("I.iload_3", vec![]),
        I::LLoad0 => ("I.lload_0", vec![]),
        I::LLoad1 => ("I.lload_1", vec![]),
        I::LLoad2 => ("I.lload_2", vec![]),
        I::LLoad3 => ("I.lload_3", vec![]),
        I::FLoad0 => ("I.fload_0", vec![]),
        I::FLoad1 => ("I.fload_1", vec![]),
        I::FLoad2 => ("I.fload_2", vec![]),
        I::FLoad3 => ("I.fload_3", vec![]),
        I::DLoad0 => ("I.dload_0", vec![]),
        I::DLoad1 => ("I.dload_1", vec![]),
        I::DLoad2 => ("I.dload_2", vec![]),
        I::DLoad3 => ("I.dload_3", vec![]),
        I::ALoad0 => ("I.aload_0", vec![]),
        I::ALoad1 => ("I.aload_1", vec![]),
        I::ALoad2 => ("I.aload_2", vec![]),
        I::ALoad3 => ("I.aload_3", vec![]),
        I::IALoad => ("I.iaload", vec![]),
        I::LALoad => ("I.laload", vec![]),
        I::FALoad => ("I.faload", vec![]),
        I::DALoad => ("I.daload", vec![]),
        I::AALoad => ("I.aaload", vec![]),
        I::BALoad => ("I.baload", vec![]),
        I::CALoad => ("I.caload", vec![]),
        I::SALoad => ("I.saload", vec![]),
        I::IStore(ref a) => ("I.istore", vec![*a as i64]),
        I::LStore(ref a) => ("I.lstore", vec![*a as i64]),
        I::FStore(ref a) => ("I.fstore", vec![*a as i64]),
        I::DStore(ref a) => ("I.dstore", vec![*a as i64]),
        I::AStore(ref a) => ("I.astore", vec![*a as i64]),
        I::IStore0 => ("I.istore_0", vec![]),
        I::IStore1 => ("I.istore_1", vec![]),
        I::IStore2 => ("I.istore_2", vec![]),
        I::IStore3 => ("I.istore_3", vec![]),
        I::LStore0 => ("I.lstore_0", vec![]),
        I::LStore1 => ("I.lstore_1", vec![]),
        I::LStore2 => ("I.lstore_2", vec![]),
        I::LStore3 => ("I.lstore_3", vec![]),
        I::FStore0 => ("I.fstore_0", vec![]),
        I::FStore1 => ("I.fstore_1", vec![]),
        I::FStore2 => ("I.fstore_2", vec![]),
        I::FStore3 => ("I.fstore_3", vec![]),
        I::DStore0 => ("I.dstore_0", vec![]),
        I::DStore1 => ("I.dstore_1", vec![]),
        I::DStore2 => ("I.dstore_2", vec![]),
        I::DStore3 => ("I.dstore_3", vec![]),
        I::AStore0 => ("I.astore_0", vec![]),
        I::AStore1 => ("I.astore_1", vec![]),
        I::AStore2 => ("I.astore_2", vec![]),
        I::AStore3 => ("I.astore_3", vec![]),
        I::IAStore => ("I.iastore", vec![]),
        I::LAStore => ("I.lastore", vec![]),
        I::FAStore => ("I.fastore", vec![]),
        I::DAStore => ("I.dastore", vec![]),
        I::AAStore => ("I.aastore", vec![]),
        I::BAStore => ("I.bastore", vec![]),
        I::CAStore => ("I.castore", vec![]),
        I::SAStore => ("I.sastore", vec![]),
        I::Pop => ("I.pop", vec![]),
        I::Pop2 => ("I.pop2", vec![]),
        I::Dup => ("I.dup", vec![]),
        I::DupX1 => ("I.dup_x1", vec![]),
        I::DupX2 => ("I.dup_x2", vec![]),
        I::Dup2 => ("I.dup2", vec![]),
        I::Dup2X1 => ("I.dup2_x1", vec![]),
        I::Dup2X2 => ("I.dup2_x2", vec![]),
        I::Swap => ("I.swap", vec![]),
        I::IAdd => ("I.iadd", vec![]),
        I::LAdd => ("I.ladd", vec![]),
        I::FAdd => ("I.fadd", vec![]),
        I::DAdd => ("I.dadd", vec![]),
        I::ISub => ("I.isub", vec![]),
        I::LSub => ("I.lsub", vec![]),
        I::FSub => ("I.fsub", vec![]),
        I::DSub => ("I.dsub", vec![]),
        I::IMul => ("I.imul", vec![]),
        I::LMul => ("I.lmul", vec![]),
        I::FMul => ("I.fmul", vec![]),
        I::DMul => ("I.dmul", vec![]),
        I::IDiv => ("I.idiv", vec![]),
        I::LDiv => ("I.ldiv", vec![]),
        I::FDiv => ("I.fdiv", vec![]),
        I::DDiv => ("I.ddiv", vec![]),
        I::IRem => ("I.irem", vec![]),
        I::LRem => ("I.lrem", vec![]),
        I::FRem => ("I.frem", vec![]),
        I::DRem => ("I.drem", vec![]),
        I::INeg => ("I.ineg", vec![]),
        I::LNeg => ("I.lneg", vec![]),
        I::FNeg => ("I.fneg", vec![]),
        I::DNeg => ("I.dneg", vec![]),
        I::IShL => ("I.ishl", vec![]),
        I::LShL => ("I.lshl", vec![]),
        I::IShR => ("I.ishr", vec![]),
        I::LShR => ("I.lshr", vec![]),
        I::IUShR => ("I.iushr", vec![]),
        I::LUShR => ("I.lushr", vec![]),
        I::IAnd => ("I.iand", vec![]),
        I::LAnd => ("I.land", vec![]),
        I::IOr => ("I.ior", vec![]),
        I::LOr => ("I.lor", vec![]),
        I::IXOr => ("I.ixor", vec![]),
        I::LXOr => ("I.lxor", vec![]),
        I::IInc(ref a, ref b) => ("I.iinc", vec![*a as i64, *b as i64]),
        I::I2L => ("I.i2l", vec![]),
        I::I2F => ("I.i2f", vec![]),
        I::I2D => ("I.i2d", vec![]),
        I::L2I => ("I.l2i", vec![]),
        I::L2F => ("I.l2f", vec![]),
        I::L2D => ("I.l2d", vec![]),
        I::F2I => ("I.f2i", vec![]),
        I::F2L => ("I.f2l", vec![]),
        I::F2D => ("I.f2d", vec![]),
        I::D2I => ("I.d2i", vec![]),
        I::D2L => ("I.d2l", vec![]),
        I::D2F => ("I.d2f", vec![]),
        I::I2B => ("I.i2b", vec![]),
        I::I2C => ("I.i2c", vec![]),
        I::I2S => ("I.i2s", vec![]),
        I::LCmp => ("I.lcmp", vec![]),
        I::FCmpL => ("I.fcmpl", vec![]),
        I::FCmpG => ("I.fcmpg", vec![]),
        I::DCmpL => ("I.dcmpl", vec![]),
        I::DCmpG => ("I.dcmpg", vec![]),
        I::IfEq(ref a) => ("I.ifeq", vec![*a as i64]),
        I::IfNE(ref a) => ("I.ifne", vec![*a as i64]),
        I::IfLT(ref a) => ("I.iflt", vec![*a as i64]),
        I::IfGE(ref a) => ("I.ifge", vec![*a as i64]),
        I::IfGT(ref a) => ("I.ifgt", vec![*a as i64]),
        I::IfLE(ref a) => ("I.ifle", vec![*a as i64]),
        I::IfICmpEq(ref a) => ("I.if_icmpeq", vec![*a as i64]),
        I::IfICmpNE(ref a) => ("I.if_icmpne", vec![*a as i64]),
        I::IfICmpLT(ref a) => ("I.if_icmplt", vec![*a as i64]),
        I::IfICmpGE(ref a) => ("I.if_icmpge", vec![*a as i64]),
        I::IfICmpGT(ref a) => ("I.if_icmpgt", vec![*a as i64]),
        I::IfICmpLE(ref a) => ("I.if_icmple", vec![*a as i64]),
        I::IfACmpEq(ref a) => ("I.if_acmpeq", vec![*a as i64]),
        I::IfACmpNE(ref a) => ("I.if_acmpne", vec![*a as i64]),
        I::GoTo(ref a) => ("I.goto", vec![*a as i64]),
        I::JSR(ref a) => ("I.jsr", vec![*a as i64]),
        I::Ret(ref a) => ("I.ret", vec![*a as i64]),
        I::IReturn => ("I.ireturn", vec![]),
        I::LReturn => ("I.lreturn", vec![]),
        I::FReturn => ("I.freturn", vec![]),
        I::DReturn => ("I.dreturn", vec![]),
        I::AReturn => ("I.areturn", vec![]),
        I::Return => ("I.return", vec![]),
        I::GetStatic(ref a) => ("I.getstatic", vec![*a as i64]),
        I::PutStatic(ref a) => ("I.putstatic", vec![*a as i64]),
        I::GetField(ref a) => ("I.getfield", vec![*a as i64]),
        I::PutField(ref a) => ("I.putfield", vec![*a as i64]),
        I::InvokeVirtual(ref a) => ("I.invokevirtual", vec![*a as i64]),
        I::InvokeSpecial(ref a) => ("I.invokespecial", vec![*a as i64]),
        I::InvokeStatic(ref a) => ("I.invokestatic", vec![*a as i64]),
        I::InvokeInterface(ref a, ref b) => ("I.invokeinterface", vec![*a as i64, *b as i64]),
        I::InvokeDynamic(ref a) => ("I.invokedynamic", vec![*a as i64]),
        I::New(ref a) => ("I.new", vec![*a as i64]),
        I::ANewArray(ref a) => ("I.anewarray", vec![*a as i64]),
        I::ArrayLength => ("I.arraylength", vec![]),
        I::AThrow => ("I.athrow", vec![]),
        I::CheckCast(ref a) => ("I.checkcast", vec![*a as i64]),
        I::InstanceOf(ref a) => ("I.instanceof", vec![*a as i64]),
        I::MonitorEnter => ("I.monitorenter", vec![]),
        I::MonitorExit => ("I.monitorexit", vec![]),
        I::MultiANewArray(ref a, ref b) => ("I.multianewarray", vec![*a as i64, *b as i64]),
        I::IfNull(ref a) => ("I.ifnull", vec![*a as i64]),
        I::IfNonNull(ref a) => ("I.ifnonnull", vec![*a as i64]),
        I::BreakPoint => ("I.breakpoint", vec![]),
        I::ImpDep1 => ("I.impdep1", vec![]),
        I::ImpDep2 => ("I.impdep2", vec![]),
        I::NewArray(ref t) => ("I.newarray", vec![match *t {
            ArrayType::Boolean => 4,
            ArrayType::Char => 5,
            ArrayType::Float => 6,
            ArrayType::Double => 7,
            ArrayType::Byte => 8,
            ArrayType::Short => 9,
            ArrayType::Int => 10,
            ArrayType::Long => 11,
            _ => -1,
        }]),
        I::TableSwitch { ref default, ref low, ref high, ref offsets, .. } => {
            let mut v = Vec::new();
            halves(&mut v, *default);
            halves(&mut v, *low);
            halves(&mut v, *high);
            for o in offsets { halves(&mut v, *o); }
            ("I.tableswitch", v)
        }
        I::LookupSwitch { ref default, ref offsets, .. } => {
            let mut v = Vec::new();
            halves(&mut v, *default);
            for (k, o) in offsets { halves(&mut v, *k); halves(&mut v, *o); }
            ("I.lookupswitch", v)
        }
        _ => ("I.unknown", vec![]),
    }
}
