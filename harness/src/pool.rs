// Runs histories of pool operations and records each call with its result.
//
// line:  id|init|op|op|...     (numbers separated by blanks)
//   init: new | cap N | default | parse HEX
//   op:   fill N | push KIND v.. | get i | utf8 i | cls i | clso i | len | iter | itsum | eq KIND v.. , KIND v..
use crate::flatten::{cps, error, item};
use jbcrs::basic::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

fn num(s: &str) -> i64 {
    s.parse().expect("number")
}

fn join(v: &[i64]) -> u64 {
    v.iter().fold(0u64, |a, x| a << 16 | (*x as u64 & 0xFFFF))
}

pub fn make(words: &[&str]) -> Item {
    let v: Vec<i64> = words[1..].iter().map(|w| num(w)).collect();
    let u = |i: usize| v[i] as u16;
    match words[0] {
        "C.Utf8" => Item::UTF8(v.iter().map(|c| std::char::from_u32(*c as u32).unwrap()).collect()),
        "C.Integer" => Item::Integer(join(&v) as u32 as i32),
        "C.Float" => Item::Float(f32::from_bits(join(&v) as u32)),
        "C.Long" => Item::Long(join(&v) as i64),
        "C.Double" => Item::Double(f64::from_bits(join(&v))),
        "C.Class" => Item::Class(u(0)),
        "C.String" => Item::String(u(0)),
        "C.FieldRef" => Item::FieldRef { class: u(0), name_and_type: u(1) },
        "C.MethodRef" => Item::MethodRef { class: u(0), name_and_type: u(1) },
        "C.InterfaceMethodRef" => Item::InterfaceMethodRef { class: u(0), name_and_type: u(1) },
        "C.NameAndType" => Item::NameAndType { name: u(0), desc: u(1) },
        "C.MethodHandle" => Item::MethodHandle {
            kind: match v[0] {
                1 => ReferenceKind::GetField,
                2 => ReferenceKind::GetStatic,
                3 => ReferenceKind::PutField,
                4 => ReferenceKind::PutStatic,
                5 => ReferenceKind::InvokeVirtual,
                6 => ReferenceKind::InvokeStatic,
                7 => ReferenceKind::InvokeSpecial,
                8 => ReferenceKind::NewInvokeSpecial,
                _ => ReferenceKind::InvokeInterface,
            },
            index: u(1),
        },
        "C.MethodType" => Item::MethodType(u(0)),
        "C.InvokeDynamic" => Item::InvokeDynamic { bootstrap_method_attribute: u(0), name_and_type: u(1) },
        "C.Module" => Item::Module(u(0)),
        "C.Package" => Item::Package(u(0)),
        k => panic!("kind {}", k),
    }
}

// The filler constants: N distinct integers.
fn filler(i: i64) -> Item {
    Item::Integer((0x1000_0000 + i) as i32)
}

struct Rec {
    r: String,
    k: &'static str,
    v: Vec<i64>,
    it: Vec<(&'static str, Vec<i64>)>,
}

fn ok(v: Vec<i64>) -> Rec {
    Rec { r: "ok".into(), k: "", v, it: vec![] }
}
fn bad(e: jbcrs::Error) -> Rec {
    Rec { r: error(&e), k: "", v: vec![], it: vec![] }
}

fn hash(i: &Item) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

// How many of the other ways to iterate (or to count what there is) disagree with `next`.
fn adaptors(pool: &Pool) -> i64 {
    let mut all: Vec<(u16, *const Item)> = vec![];
    let mut it = pool.iter();
    loop {
        let (lo, hi) = it.size_hint();
        let looked = all.len() < 40 || all.len() % 5000 == 0;
        let left = if looked { pool.iter().skip(all.len()).count() } else { 0 };
        if looked && (lo > left || hi.map_or(false, |h| h < left)) { return 1; }
        match it.next() {
            Some((i, x)) => all.push((i, x)),
            None => break,
        }
        if all.len() > 70000 { return 2; }
    }
    let p = |x: Option<(u16, &Item)>| x.map(|(i, y)| (i, y as *const Item));
    let mut bad = 0;
    if pool.iter().count() != all.len() { bad += 4; }
    if p(pool.iter().last()) != all.last().cloned() { bad += 8; }
    if pool.iter().map(|(i, y)| (i, y as *const Item)).collect::<Vec<_>>() != all { bad += 16; }
    if pool.iter().fold(0usize, |a, _| a + 1) != all.len() { bad += 32; }
    for k in [0, 1, 2, 3, 7, all.len() / 2, all.len().saturating_sub(1), all.len(), all.len() + 1] {
        let mut it = pool.iter();
        if p(it.nth(k)) != all.get(k).cloned() || p(it.next()) != all.get(k + 1).cloned() { bad += 64; }
    }
    bad
}

fn run(pool: &mut Pool, filled: &mut i64, op: &str) -> Rec {
    let w: Vec<&str> = op.split_whitespace().collect();
    let idx = || num(w[1]) as u16;
    match w[0] {
        "fill" => {
            let mut bad = 0;
            for _ in 0..num(w[1]) {
                let before = pool.len() as i64;
                match pool.push(filler(*filled)) {
                    Ok(i) if i as i64 == before => {}
                    _ => bad += 1,
                }
                *filled += 1;
            }
            ok(vec![bad])
        }
        "push" => match pool.push(make(&w[1..])) {
            Ok(i) => ok(vec![i as i64]),
            Err(e) => bad(e),
        },
        "get" => match pool.get(idx()) {
            Ok(i) => {
                let (k, v) = item(i);
                Rec { r: "ok".into(), k, v, it: vec![] }
            }
            Err(e) => bad(e),
        },
        "utf8" => match pool.get_utf8(idx()) {
            Ok(s) => ok(cps(&s)),
            Err(e) => bad(e),
        },
        "cls" => match pool.get_class_name(idx()) {
            Ok(s) => ok(cps(&s)),
            Err(e) => bad(e),
        },
        "clso" => match pool.get_class_name_opt(idx()) {
            Ok(Some(s)) => Rec { r: "ok".into(), k: "some", v: cps(&s), it: vec![] },
            Ok(None) => Rec { r: "ok".into(), k: "none", v: vec![], it: vec![] },
            Err(e) => bad(e),
        },
        "len" => ok(vec![pool.len() as i64, pool.is_empty() as i64]),
        // every entry in order, and how often the iterator comes back after its end
        "iter" => {
            let mut it = pool.iter();
            let mut l = vec![];
            while let Some((i, x)) = it.next() {
                let (k, mut v) = item(x);
                v.insert(0, i as i64);
                l.push((k, v));
                if l.len() > 70000 { break; }
            }
            let again = (0..3).filter(|_| it.next().is_some()).count();
            Rec { r: "ok".into(), k: "", v: vec![again as i64, adaptors(pool)], it: l }
        }
        // count, entries that are out of order or not what lookup says, last index, comes back
        "itsum" => {
            let mut it = pool.iter();
            let (mut n, mut wrong, mut last) = (0i64, 0i64, 0i64);
            while let Some((i, x)) = it.next() {
                let same = match pool.get(i) { Ok(y) => std::ptr::eq(x, y) || item(x) == item(y), Err(_) => false };
                if !same || i as i64 <= last { wrong += 1; }
                last = i as i64;
                n += 1;
                if n > 70000 { break; }
            }
            let again = (0..3).filter(|_| it.next().is_some()).count() as i64;
            ok(vec![n, wrong, last, again, adaptors(pool)])
        }
        "eq" => {
            let p = w.iter().position(|x| *x == ",").unwrap();
            let (a, b) = (make(&w[1..p]), make(&w[p + 1..]));
            ok(vec![(a == b) as i64, (b == a) as i64, (a != b) as i64, (hash(&a) == hash(&b)) as i64])
        }
        o => panic!("op {}", o),
    }
}

pub fn history(line: &str, out: &mut String) {
    let mut parts = line.split('|');
    let id = parts.next().unwrap();
    let init = parts.next().unwrap();
    let w: Vec<&str> = init.split_whitespace().collect();
    let _ = write!(out, "{{\"id\":{},\"ops\":[", id);
    let made = crate::guard(|| match w[0] {
        "new" => Ok(Pool::new()),
        "cap" => Ok(Pool::with_capacity(num(w[1]) as u16)),
        "default" => Ok(Pool::default()),
        "parse" => parse(&crate::unhex(w[1])).map(|x| x.0),
        k => panic!("init {}", k),
    });
    let mut pool = match made {
        Ok(Ok(p)) => {
            let _ = write!(out, "{{\"r\":\"ok\",\"k\":\"\",\"v\":[],\"it\":[]}}");
            p
        }
        Ok(Err(e)) => {
            let _ = write!(out, "{{\"r\":\"{}\",\"k\":\"\",\"v\":[],\"it\":[]}}]}}", error(&e));
            return;
        }
        Err(_) => {
            let _ = write!(out, "{{\"r\":\"panic\",\"k\":\"\",\"v\":[],\"it\":[]}}]}}");
            return;
        }
    };
    let mut filled = 0;
    for op in parts {
        let res = crate::guard(|| run(&mut pool, &mut filled, op));
        let rec = match res {
            Ok(r) => r,
            Err(_) => Rec { r: "panic".into(), k: "", v: vec![], it: vec![] },
        };
        let _ = write!(out, ",{{\"r\":\"{}\",\"k\":\"{}\",\"v\":{:?},\"it\":[", rec.r, rec.k, rec.v);
        for (i, (k, v)) in rec.it.iter().enumerate() {
            let _ = write!(out, "{}{{\"k\":\"{}\",\"v\":{:?}}}", if i > 0 { "," } else { "" }, k, v);
        }
        out.push_str("]}");
        if rec.r == "panic" {
            break;
        }
    }
    out.push_str("]}");
}
