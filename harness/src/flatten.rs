// Flattens the parsed tree into events, in the order the class file format has them.
use crate::insn;
use jbcrs::basic::*;
use jbcrs::Error;

pub struct Ev {
    pub l: &'static str,
    pub v: Vec<i64>,
}

pub type Out = Vec<Ev>;

fn ev(out: &mut Out, l: &'static str, v: Vec<i64>) {
    out.push(Ev { l, v });
}

pub fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}

fn h32(v: u32) -> Vec<i64> {
    vec![(v >> 16) as i64, (v & 0xFFFF) as i64]
}
fn h64(v: u64) -> Vec<i64> {
    vec![
        (v >> 48) as i64,
        (v >> 32 & 0xFFFF) as i64,
        (v >> 16 & 0xFFFF) as i64,
        (v & 0xFFFF) as i64,
    ]
}

#[allow(unreachable_patterns)]
pub fn kind_no(k: &ReferenceKind) -> i64 {
    match *k {
        ReferenceKind::GetField => 1,
        ReferenceKind::GetStatic => 2,
        ReferenceKind::PutField => 3,
        ReferenceKind::PutStatic => 4,
        ReferenceKind::InvokeVirtual => 5,
        ReferenceKind::InvokeStatic => 6,
        ReferenceKind::InvokeSpecial => 7,
        ReferenceKind::NewInvokeSpecial => 8,
        ReferenceKind::InvokeInterface => 9,
        _ => -1,
    }
}

#[allow(unreachable_patterns)]
pub fn item(i: &Item) -> (&'static str, Vec<i64>) {
    match *i {
        Item::UTF8(ref s) => ("C.Utf8", cps(s)),
        Item::Integer(x) => ("C.Integer", h32(x as u32)),
        Item::Float(x) => ("C.Float", h32(x.to_bits())),
        Item::Long(x) => ("C.Long", h64(x as u64)),
        Item::Double(x) => ("C.Double", h64(x.to_bits())),
        Item::Class(x) => ("C.Class", vec![x as i64]),
        Item::String(x) => ("C.String", vec![x as i64]),
        Item::FieldRef { class, name_and_type, .. } => {
            ("C.FieldRef", vec![class as i64, name_and_type as i64])
        }
        Item::MethodRef { class, name_and_type, .. } => {
            ("C.MethodRef", vec![class as i64, name_and_type as i64])
        }
        Item::InterfaceMethodRef { class, name_and_type, .. } => {
            ("C.InterfaceMethodRef", vec![class as i64, name_and_type as i64])
        }
        Item::NameAndType { name, desc, .. } => ("C.NameAndType", vec![name as i64, desc as i64]),
        Item::MethodHandle { ref kind, index, .. } => {
            ("C.MethodHandle", vec![kind_no(kind), index as i64])
        }
        Item::MethodType(x) => ("C.MethodType", vec![x as i64]),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type, .. } => (
            "C.InvokeDynamic",
            vec![bootstrap_method_attribute as i64, name_and_type as i64],
        ),
        Item::Module(x) => ("C.Module", vec![x as i64]),
        Item::Package(x) => ("C.Package", vec![x as i64]),
        _ => ("C.other", vec![]),
    }
}

#[allow(unreachable_patterns)]
pub fn error(e: &Error) -> String {
    match *e {
        Error::IO(_) => "IO".into(),
        Error::InvalidUTF8 => "InvalidUTF8".into(),
        Error::LimitExceeded => "LimitExceeded".into(),
        Error::NotAClass => "NotAClass".into(),
        Error::InvalidCPItem(i) => format!("InvalidCPItem:{}", i),
        Error::CPTooLarge => "CPTooLarge".into(),
        Error::InvalidDescriptor { .. } => "InvalidDescriptor".into(),
        Error::InvalidInstruction { op_code, at } => format!("InvalidInstruction:{}:{}", op_code, at),
        Error::ReservedStackMapFrame(t) => format!("ReservedStackMapFrame:{}", t),
        Error::InvalidVerificationType(t) => format!("InvalidVerificationType:{}", t),
        Error::InvalidElementValue(t) => format!("InvalidElementValue:{}", t),
        Error::InvalidTargetType => "InvalidTargetType".into(),
        Error::InvalidTypePath => "InvalidTypePath".into(),
        _ => "Other".into(),
    }
}

pub fn class(pool: &Pool, c: &Class) -> Out {
    let mut o = Vec::new();
    ev(&mut o, "version", vec![c.minor_version as i64, c.major_version as i64]);
    for i in 1..pool.len() {
        match pool.get(i) {
            Ok(it) => {
                let (l, mut v) = item(it);
                v.insert(0, i as i64);
                ev(&mut o, l, v);
            }
            Err(_) => ev(&mut o, "C.none", vec![i as i64]),
        }
    }
    ev(&mut o, "C.end", vec![pool.len() as i64]);
    ev(
        &mut o,
        "class",
        vec![c.access_flags.bits() as i64, c.name as i64, c.super_name as i64],
    );
    ev(&mut o, "interfaces", list(&c.interfaces));
    ev(&mut o, "fields", vec![c.fields.len() as i64]);
    for f in &c.fields {
        ev(&mut o, "field", vec![f.access_flags.bits() as i64, f.name as i64, f.desc as i64]);
        attrs(&mut o, &f.attributes);
    }
    ev(&mut o, "methods", vec![c.methods.len() as i64]);
    for f in &c.methods {
        ev(&mut o, "method", vec![f.access_flags.bits() as i64, f.name as i64, f.desc as i64]);
        attrs(&mut o, &f.attributes);
    }
    attrs(&mut o, &c.attributes);
    o
}

fn list(l: &[u16]) -> Vec<i64> {
    l.iter().map(|x| *x as i64).collect()
}

fn attrs(o: &mut Out, a: &[Attribute]) {
    ev(o, "attrs", vec![a.len() as i64]);
    for x in a {
        attr(o, x);
    }
}

fn n(l: usize) -> Vec<i64> {
    vec![l as i64]
}

#[allow(unreachable_patterns)]
fn attr(o: &mut Out, a: &Attribute) {
    match *a {
        Attribute::AnnotationDefault(ref v) => {
            ev(o, "A.AnnotationDefault", vec![]);
            value(o, v);
        }
        Attribute::BootstrapMethods(ref ms) => {
            ev(o, "A.BootstrapMethods", n(ms.len()));
            for m in ms {
                let mut v = vec![m.method_ref as i64];
                v.extend(list(&m.arguments));
                ev(o, "bsm", v);
            }
        }
        Attribute::Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes, .. } => {
            ev(o, "A.Code", vec![max_stack as i64, max_locals as i64]);
            let mut offs: Vec<u32> = instructions.keys().cloned().collect();
            offs.sort();
            for at in offs {
                let (l, mut v) = insn::flatten(&instructions[&at]);
                v.insert(0, at as i64);
                ev(o, l, v);
            }
            let mut v = vec![];
            for e in exceptions {
                v.extend([e.start as i64, e.end as i64, e.handler as i64, e.catch_type as i64]);
            }
            ev(o, "exceptions", v);
            attrs(o, attributes);
        }
        Attribute::ConstantValue(x) => ev(o, "A.ConstantValue", vec![x as i64]),
        Attribute::Deprecated => ev(o, "A.Deprecated", vec![]),
        Attribute::EnclosingMethod { class_index, method_index, .. } => {
            ev(o, "A.EnclosingMethod", vec![class_index as i64, method_index as i64])
        }
        Attribute::Exceptions(ref l) => ev(o, "A.Exceptions", list(l)),
        Attribute::InnerClasses(ref l) => {
            let mut v = vec![];
            for c in l {
                v.extend([
                    c.inner_class_info as i64,
                    c.outer_class_info as i64,
                    c.inner_name as i64,
                    c.inner_class_access_flags.bits() as i64,
                ]);
            }
            ev(o, "A.InnerClasses", v);
        }
        Attribute::LineNumberTable(ref l) => {
            let mut v = vec![];
            for x in l {
                v.extend([x.start as i64, x.line_number as i64]);
            }
            ev(o, "A.LineNumberTable", v);
        }
        Attribute::LocalVariableTable(ref l) => {
            let mut v = vec![];
            for x in l {
                v.extend([
                    x.start as i64,
                    x.length as i64,
                    x.name as i64,
                    x.descriptor as i64,
                    x.index as i64,
                ]);
            }
            ev(o, "A.LocalVariableTable", v);
        }
        Attribute::LocalVariableTypeTable(ref l) => {
            let mut v = vec![];
            for x in l {
                v.extend([
                    x.start as i64,
                    x.length as i64,
                    x.name as i64,
                    x.signature as i64,
                    x.index as i64,
                ]);
            }
            ev(o, "A.LocalVariableTypeTable", v);
        }
        Attribute::MethodParameters(ref l) => {
            let mut v = vec![];
            for x in l {
                v.extend([x.name as i64, x.access_flags.bits() as i64]);
            }
            ev(o, "A.MethodParameters", v);
        }
        Attribute::Module {
            name,
            flags,
            version,
            ref requires,
            ref exports,
            ref opens,
            ref uses,
            ref provides,
            ..
        } => {
            ev(o, "A.Module", vec![name as i64, flags.bits() as i64, version as i64]);
            let mut v = vec![];
            for r in requires {
                v.extend([r.index as i64, r.flags.bits() as i64, r.version as i64]);
            }
            ev(o, "requires", v);
            ev(o, "exports", n(exports.len()));
            for e in exports {
                let mut v = vec![e.index as i64, e.flags.bits() as i64];
                v.extend(list(&e.to));
                ev(o, "export", v);
            }
            ev(o, "opens", n(opens.len()));
            for e in opens {
                let mut v = vec![e.index as i64, e.flags.bits() as i64];
                v.extend(list(&e.to));
                ev(o, "open", v);
            }
            ev(o, "uses", list(uses));
            ev(o, "provides", n(provides.len()));
            for p in provides {
                let mut v = vec![p.index as i64];
                v.extend(list(&p.with));
                ev(o, "provide", v);
            }
        }
        Attribute::ModuleMainClass(x) => ev(o, "A.ModuleMainClass", vec![x as i64]),
        Attribute::ModulePackages(ref l) => ev(o, "A.ModulePackages", list(l)),
        Attribute::RuntimeVisibleAnnotations(ref l) => {
            ev(o, "A.RuntimeVisibleAnnotations", n(l.len()));
            anns(o, l);
        }
        Attribute::RuntimeInvisibleAnnotations(ref l) => {
            ev(o, "A.RuntimeInvisibleAnnotations", n(l.len()));
            anns(o, l);
        }
        Attribute::RuntimeVisibleParameterAnnotations(ref l) => {
            ev(o, "A.RuntimeVisibleParameterAnnotations", n(l.len()));
            panns(o, l);
        }
        Attribute::RuntimeInvisibleParameterAnnotations(ref l) => {
            ev(o, "A.RuntimeInvisibleParameterAnnotations", n(l.len()));
            panns(o, l);
        }
        Attribute::RuntimeVisibleTypeAnnotations(ref l) => {
            ev(o, "A.RuntimeVisibleTypeAnnotations", n(l.len()));
            tanns(o, l);
        }
        Attribute::RuntimeInvisibleTypeAnnotations(ref l) => {
            ev(o, "A.RuntimeInvisibleTypeAnnotations", n(l.len()));
            tanns(o, l);
        }
        Attribute::Signature(x) => ev(o, "A.Signature", vec![x as i64]),
        Attribute::Synthetic => ev(o, "A.Synthetic", vec![]),
        Attribute::SourceFile(x) => ev(o, "A.SourceFile", vec![x as i64]),
        Attribute::SourceDebugExtension(ref s) => ev(o, "A.SourceDebugExtension", cps(s)),
        Attribute::StackMapTable(ref l) => {
            ev(o, "A.StackMapTable", n(l.len()));
            for f in l {
                frame(o, f);
            }
        }
        Attribute::Unknown(name, ref b) => {
            let mut v = vec![name as i64];
            v.extend(b.iter().map(|x| *x as i64));
            ev(o, "A.Unknown", v);
        }
        _ => ev(o, "A.other", vec![]),
    }
}

#[allow(unreachable_patterns)]
fn frame(o: &mut Out, f: &StackMapFrame) {
    match *f {
        StackMapFrame::Same { offset_delta, .. } => ev(o, "F.same", vec![offset_delta as i64]),
        StackMapFrame::Same1 { offset_delta, ref stack, .. } => {
            ev(o, "F.same1", vec![offset_delta as i64]);
            vt(o, stack);
        }
        StackMapFrame::Chop { offset_delta, count, .. } => {
            ev(o, "F.chop", vec![offset_delta as i64, count as i64])
        }
        StackMapFrame::Append { offset_delta, ref locals, .. } => {
            ev(o, "F.append", vec![offset_delta as i64, locals.len() as i64]);
            for l in locals {
                vt(o, l);
            }
        }
        StackMapFrame::Full { offset_delta, ref locals, ref stack, .. } => {
            ev(o, "F.full", vec![offset_delta as i64]);
            ev(o, "locals", n(locals.len()));
            for l in locals {
                vt(o, l);
            }
            ev(o, "stack", n(stack.len()));
            for l in stack {
                vt(o, l);
            }
        }
        _ => ev(o, "F.other", vec![]),
    }
}

#[allow(unreachable_patterns)]
fn vt(o: &mut Out, t: &VerificationType) {
    use jbcrs::basic::VerificationType as V;
    ev(
        o,
        "vt",
        match *t {
            V::Top => vec![0],
            V::Integer => vec![1],
            V::Float => vec![2],
            V::Double => vec![3],
            V::Long => vec![4],
            V::Null => vec![5],
            V::UninitializedThis => vec![6],
            V::Object(x) => vec![7, x as i64],
            V::Uninitialized(x) => vec![8, x as i64],
            _ => vec![-1],
        },
    )
}

fn anns(o: &mut Out, l: &[Annotation]) {
    for a in l {
        ann(o, a);
    }
}

fn panns(o: &mut Out, l: &[Vec<Annotation>]) {
    for a in l {
        ev(o, "pann", n(a.len()));
        anns(o, a);
    }
}

fn ann(o: &mut Out, a: &Annotation) {
    ev(o, "ann", vec![a.type_index as i64, a.element_value_pairs.len() as i64]);
    for (name, v) in &a.element_value_pairs {
        ev(o, "pair", vec![*name as i64]);
        value(o, v);
    }
}

#[allow(unreachable_patterns)]
fn value(o: &mut Out, v: &ElementValue) {
    use jbcrs::basic::ElementValue as E;
    let one = |t: u8, x: u16| vec![t as i64, x as i64];
    match *v {
        E::Byte(x) => ev(o, "value", one(b'B', x)),
        E::Short(x) => ev(o, "value", one(b'S', x)),
        E::Char(x) => ev(o, "value", one(b'C', x)),
        E::Int(x) => ev(o, "value", one(b'I', x)),
        E::Long(x) => ev(o, "value", one(b'J', x)),
        E::Float(x) => ev(o, "value", one(b'F', x)),
        E::Double(x) => ev(o, "value", one(b'D', x)),
        E::Boolean(x) => ev(o, "value", one(b'Z', x)),
        E::String(x) => ev(o, "value", one(b's', x)),
        E::Class(x) => ev(o, "value", one(b'c', x)),
        E::Enum { type_name, const_name, .. } => {
            ev(o, "value", vec![b'e' as i64, type_name as i64, const_name as i64])
        }
        E::Annotation(ref a) => {
            ev(o, "value", vec![b'@' as i64]);
            ann(o, a);
        }
        E::Array(ref l) => {
            ev(o, "value", vec![b'[' as i64, l.len() as i64]);
            for x in l {
                value(o, x);
            }
        }
        _ => ev(o, "value", vec![-1]),
    }
}

fn tanns(o: &mut Out, l: &[TypeAnnotation]) {
    for t in l {
        let v = target(&t.target_type);
        ev(o, "target", v);
        ev(o, "path", n(t.target_path.len()));
        for p in &t.target_path {
            ev(o, "step", vec![path_kind(&p.path_kind), p.argument_index as i64]);
        }
        ann(o, &t.annotation);
    }
}

#[allow(unreachable_patterns)]
fn path_kind(k: &TypePathKind) -> i64 {
    match *k {
        TypePathKind::ArrayType => 0,
        TypePathKind::NestedType => 1,
        TypePathKind::WildcardType => 2,
        TypePathKind::Type => 3,
        _ => -1,
    }
}

#[allow(unreachable_patterns)]
fn target(t: &TargetType) -> Vec<i64> {
    use jbcrs::basic::TargetType as T;
    let vars = |t: i64, l: &[LocalVariableTarget]| {
        let mut v = vec![t];
        for x in l {
            v.extend([x.start as i64, x.length as i64, x.index as i64]);
        }
        v
    };
    match *t {
        T::TypeParameterClass(x) => vec![0x00, x as i64],
        T::TypeParameterMethod(x) => vec![0x01, x as i64],
        T::SuperType(x) => vec![0x10, x as i64],
        T::TypeParameterBoundClass { type_parameter, bound_index, .. } => {
            vec![0x11, type_parameter as i64, bound_index as i64]
        }
        T::TypeParameterBoundMethod { type_parameter, bound_index, .. } => {
            vec![0x12, type_parameter as i64, bound_index as i64]
        }
        T::EmptyField => vec![0x13],
        T::EmptyReturn => vec![0x14],
        T::EmptyReceiver => vec![0x15],
        T::FormalParameter(x) => vec![0x16, x as i64],
        T::Throws(x) => vec![0x17, x as i64],
        T::LocalVariable(ref l) => vars(0x40, l),
        T::ResourceVariable(ref l) => vars(0x41, l),
        T::Catch(x) => vec![0x42, x as i64],
        T::OffsetInstanceOf(x) => vec![0x43, x as i64],
        T::OffsetNew(x) => vec![0x44, x as i64],
        T::OffsetNewRef(x) => vec![0x45, x as i64],
        T::OffsetRef(x) => vec![0x46, x as i64],
        T::TypeArgumentCast { offset, type_argument, .. } => vec![0x47, offset as i64, type_argument as i64],
        T::TypeArgumentConstructor { offset, type_argument, .. } => {
            vec![0x48, offset as i64, type_argument as i64]
        }
        T::TypeArgumentMethod { offset, type_argument, .. } => vec![0x49, offset as i64, type_argument as i64],
        T::TypeArgumentNewRef { offset, type_argument, .. } => vec![0x4A, offset as i64, type_argument as i64],
        T::TypeArgumentRef { offset, type_argument, .. } => vec![0x4B, offset as i64, type_argument as i64],
        _ => vec![-1],
    }
}
