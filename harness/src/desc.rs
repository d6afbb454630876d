// Runs descriptor parsing and printing.
//
// line:  id|T|code points            parse a type descriptor
//        id|M|code points            parse a method descriptor
//        id|D|dims tag name..        print a type descriptor value
//        id|E|dims tag name..;...;R  print a method descriptor value, R = V or dims tag name..
use crate::flatten::cps;
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};
use std::fmt::Write;

#[allow(unreachable_patterns)]
fn td(d: &TypeDescriptor) -> Vec<i64> {
    let mut v = vec![d.dimensions as i64];
    match d.base_type {
        Type::Boolean => v.push('Z' as i64),
        Type::Byte => v.push('B' as i64),
        Type::Short => v.push('S' as i64),
        Type::Int => v.push('I' as i64),
        Type::Long => v.push('J' as i64),
        Type::Float => v.push('F' as i64),
        Type::Double => v.push('D' as i64),
        Type::Char => v.push('C' as i64),
        Type::Reference(ref n) => {
            v.push('L' as i64);
            v.extend(cps(n));
        }
        _ => v.push(-1),
    }
    v
}

fn text(v: &[i64]) -> String {
    v.iter().map(|c| std::char::from_u32(*c as u32).expect("char")).collect()
}

fn nums(s: &str) -> Vec<i64> {
    s.split_whitespace().map(|x| x.parse().expect("number")).collect()
}

fn value(s: &str) -> TypeDescriptor {
    let v = nums(s);
    let t = match v[1] as u8 {
        b'Z' => Type::Boolean,
        b'B' => Type::Byte,
        b'S' => Type::Short,
        b'I' => Type::Int,
        b'J' => Type::Long,
        b'F' => Type::Float,
        b'D' => Type::Double,
        b'C' => Type::Char,
        _ => Type::Reference(text(&v[2..])),
    };
    TypeDescriptor::new(v[0] as u8, t)
}

struct Out {
    r: String,
    ev: Vec<Vec<i64>>,   // the parts: parameters, then the return type (empty: void)
    disp: Vec<i64>,      // printed form
    again: i64,          // 1 if the printed form parses to an equal value
    desc: Vec<i64>,      // text carried by the error
    at: i64,
}

fn rejected(e: Error) -> Out {
    let (r, desc, at) = match e {
        Error::InvalidDescriptor { desc, at } => ("err".to_string(), cps(&desc), at as i64),
        e => (format!("err {}", crate::flatten::error(&e)), vec![], -1),
    };
    Out { r, ev: vec![], disp: vec![], again: 0, desc, at }
}

fn shown_td(d: &TypeDescriptor) -> Out {
    let s = d.to_string();
    let again = match s.parse::<TypeDescriptor>() { Ok(ref x) => (x == d) as i64, Err(_) => 0 };
    Out { r: "ok".into(), ev: vec![td(d)], disp: cps(&s), again, desc: vec![], at: -1 }
}

fn shown_md(d: &MethodDescriptor) -> Out {
    let s = d.to_string();
    let again = match s.parse::<MethodDescriptor>() { Ok(ref x) => (x == d) as i64, Err(_) => 0 };
    let mut ev: Vec<Vec<i64>> = d.params.iter().map(td).collect();
    ev.push(d.return_type.as_ref().map(td).unwrap_or_default());
    Out { r: "ok".into(), ev, disp: cps(&s), again, desc: vec![], at: -1 }
}

fn run(kind: &str, arg: &str) -> Out {
    match kind {
        "T" => match text(&nums(arg)).parse::<TypeDescriptor>() {
            Ok(d) => shown_td(&d),
            Err(e) => rejected(e),
        },
        "M" => match text(&nums(arg)).parse::<MethodDescriptor>() {
            Ok(d) => shown_md(&d),
            Err(e) => rejected(e),
        },
        "D" => shown_td(&value(arg)),
        "E" => {
            let mut parts: Vec<&str> = arg.split(';').collect();
            let ret = parts.pop().unwrap().trim();
            let params = parts.iter().map(|p| value(p)).collect();
            let ret = if ret == "V" { None } else { Some(value(ret)) };
            shown_md(&MethodDescriptor::new(params, ret))
        }
        k => panic!("kind {}", k),
    }
}

pub fn case(line: &str, out: &mut String) {
    let parts: Vec<&str> = line.splitn(3, '|').collect();
    let o = match crate::guard(|| run(parts[1], parts[2])) {
        Ok(o) => o,
        Err(_) => Out { r: "panic".into(), ev: vec![], disp: vec![], again: 0, desc: vec![], at: -1 },
    };
    let _ = write!(
        out,
        "{{\"id\":{},\"r\":{:?},\"p\":{:?},\"disp\":{:?},\"again\":{},\"desc\":{:?},\"at\":{}}}",
        parts[0], o.r, o.ev, o.disp, o.again, o.desc, o.at
    );
}
