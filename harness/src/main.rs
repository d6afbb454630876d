// Conformance harness: runs the real jbcrs on recorded inputs and writes what it did.
//   jbh parse|total|soak|pool|desc|flags IN OUT
// One input per line; one JSON object per line of output, flushed before the next input
// starts, so that the caller knows which input a dead process was working on.
mod alloc;
mod desc;
mod flatten;
mod insn;
mod pool;

use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static CASE: AtomicU64 = AtomicU64::new(0);
static MSG: Mutex<String> = Mutex::new(String::new());

pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        MSG.lock().map(|m| m.clone()).unwrap_or_default()
    })
}

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

// Fixed part of the memory a parse may take, and the factor per input byte.
const MEM_BASE: usize = 64 << 20;
const MEM_FACTOR: usize = 1024;

type Outcome = (&'static str, String, Vec<flatten::Ev>);

fn outcome(bytes: &[u8]) -> Outcome {
    match guard(|| jbcrs::basic::parse(bytes)) {
        Ok(Ok((pool, class))) => match guard(|| flatten::class(&pool, &class)) {
            Ok(ev) => ("ok", String::new(), ev),
            Err(m) => ("panic", m, vec![]),
        },
        Ok(Err(e)) => ("err", flatten::error(&e), vec![]),
        Err(m) => ("panic", m, vec![]),
    }
}

fn parse_case(line: &str, out: &mut String) {
    let mut p = line.splitn(2, '|');
    let id = p.next().unwrap();
    let bytes = unhex(p.next().unwrap());
    let base = alloc::now();
    alloc::begin(MEM_BASE + MEM_FACTOR * bytes.len());
    let _ = guard(|| jbcrs::basic::parse(&bytes).is_ok());
    let peak = alloc::end(base);
    // a second time, from other memory: the outcome must depend on the bytes only
    let (r, e, evs) = outcome(&bytes);
    let (r, e, evs) = if bytes.len() <= 20000 && {
        let copy = bytes.clone();
        let again = outcome(&copy);
        again.0 != r || again.1 != e || again.2.len() != evs.len()
            || again.2.iter().zip(evs.iter()).any(|(x, y)| x.l != y.l || x.v != y.v)
    } { ("unstable", String::new(), vec![]) } else { (r, e, evs) };
    let e: String = e.chars().filter(|c| *c >= ' ' && *c <= '~' && *c != '"' && *c != '\\').collect();
    let _ = write!(out, "{{\"id\":{},\"r\":\"{}\",\"e\":\"{}\",\"peak\":{},\"ev\":[", id, r, e, peak);
    for (i, x) in evs.iter().enumerate() {
        let _ = write!(out, "{}{{\"l\":\"{}\",\"v\":{:?}}}", if i > 0 { "," } else { "" }, x.l, x.v);
    }
    out.push_str("]}");
}

/// The outcome alone.
fn total_case(line: &str, out: &mut String) {
    let mut p = line.splitn(2, '|');
    let id = p.next().unwrap();
    let bytes = unhex(p.next().unwrap());
    let base = alloc::now();
    alloc::begin(MEM_BASE + MEM_FACTOR * bytes.len());
    let _ = guard(|| jbcrs::basic::parse(&bytes).is_ok());
    alloc::end(base);
    let (r, e, _) = outcome(&bytes);
    let e: String = e.chars().filter(|c| *c >= ' ' && *c <= '~' && *c != '"' && *c != '\\').collect();
    let _ = write!(out, "{{\"id\":{},\"r\":\"{}\",\"e\":\"{}\"}}", id, r, e);
}

/// All inputs many times over, in changing orders, on one thread after another and on
/// several at once: the ids of the inputs whose outcome is not always the same.
fn soak(lines: &[String], rounds: usize, out: &mut String) {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let inputs: Vec<Vec<u8>> = lines.iter().map(|l| unhex(l.splitn(2, '|').nth(1).unwrap())).collect();
    let digest = |b: &[u8]| {
        let (r, e, evs) = outcome(b);
        let mut h = DefaultHasher::new();
        h.write(r.as_bytes());
        if r != "panic" { h.write(e.as_bytes()); }
        for x in evs {
            h.write(x.l.as_bytes());
            for v in x.v { h.write_i64(v as i64); }
        }
        h.finish()
    };
    let n = inputs.len();
    let first: Vec<u64> = inputs.iter().map(|b| digest(b)).collect();
    let pass = |k: usize| -> Vec<usize> {
        // k-th order: a step that is coprime to n
        let mut step = 2 * k + 1;
        while gcd(step, n) != 1 { step += 1; }
        CASE.fetch_add(1, SeqCst);
        (0..n).map(|i| (i * step + k) % n).filter(|i| digest(&inputs[*i]) != first[*i]).collect()
    };
    let mut bad: Vec<usize> = vec![];
    for k in 0..rounds { bad.extend(pass(k)); }
    std::thread::scope(|s| {
        let t: Vec<_> = (0..4).map(|k| {
            let pass = &pass;
            s.spawn(move || (0..rounds / 4 + 1).flat_map(|j| pass(17 * k + j)).collect::<Vec<_>>())
        }).collect();
        for x in t { bad.extend(x.join().unwrap_or_default()); }
    });
    // each input on many threads at the very same time
    let gate = std::sync::Barrier::new(8);
    std::thread::scope(|s| {
        let t: Vec<_> = (0..8).map(|_| {
            let (gate, digest, inputs, first) = (&gate, &digest, &inputs, &first);
            s.spawn(move || (0..n).filter(|i| {
                CASE.fetch_add(1, SeqCst);
                gate.wait();
                (0..6).any(|_| digest(&inputs[*i]) != first[*i])
            }).collect::<Vec<_>>())
        }).collect();
        for x in t { bad.extend(x.join().unwrap_or_default()); }
    });
    // one buffer reused: what it held before must not matter
    let mut buf: Vec<u8> = Vec::with_capacity(inputs.iter().map(|b| b.len()).max().unwrap_or(0) + 16);
    for (i, b) in inputs.iter().enumerate() {
        CASE.fetch_add(1, SeqCst);
        for round in 0..6 {
            buf.clear();
            buf.extend_from_slice(b);
            for _ in 0..4 { if digest(&buf) != first[i] { bad.push(i); } }
            if b.is_empty() { break; }
            let at = match round { 0 => 0, 1 => 7, 2 => b.len() - 1, k => (k * 7919 + i * 31) % b.len() };
            let at = at.min(b.len() - 1);
            buf[at] ^= if round % 2 == 0 { 0x20 } else { 1 };
            let fresh = buf.clone();
            if digest(&buf) != digest(&fresh) { bad.push(i); }
            buf.truncate(b.len() / 2);
            if digest(&buf) != digest(&fresh[..b.len() / 2]) { bad.push(i); }
        }
    }
    bad.sort();
    bad.dedup();
    let _ = write!(out, "{{\"runs\":{},\"bad\":{:?}}}", n * (rounds + 4 * (rounds / 4 + 1) + 48), bad);
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn flags_case(line: &str, out: &mut String) {
    use jbcrs::basic::AccessFlags as F;
    let w: u32 = line.parse().expect("number");
    let f = F::from_bits_truncate(w as u16);
    let named = [
        ("PUBLIC", F::PUBLIC), ("PRIVATE", F::PRIVATE), ("PROTECTED", F::PROTECTED),
        ("STATIC", F::STATIC), ("FINAL", F::FINAL), ("SUPER", F::SUPER),
        ("SYNCHRONIZED", F::SYNCHRONIZED), ("VOLATILE", F::VOLATILE), ("BRIDGE", F::BRIDGE),
        ("STATIC_PHASE", F::STATIC_PHASE), ("TRANSIENT", F::TRANSIENT), ("VARARGS", F::VARARGS),
        ("NATIVE", F::NATIVE), ("INTERFACE", F::INTERFACE), ("ABSTRACT", F::ABSTRACT),
        ("STRICT", F::STRICT), ("SYNTHETIC", F::SYNTHETIC), ("ANNOTATION", F::ANNOTATION),
        ("ENUM", F::ENUM), ("MODULE", F::MODULE), ("MANDATED", F::MANDATED),
    ];
    let l: Vec<&str> = named.iter().filter(|(_, x)| f.contains(*x)).map(|(n, _)| *n).collect();
    let text = format!("{:?}", f);
    let printed: Vec<&str> = text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|x| !x.is_empty()).collect();
    let _ = write!(out, "{{\"w\":{},\"bits\":{},\"names\":{:?},\"printed\":{:?}}}", w, f.bits(), l, printed);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let limit: u64 = std::env::var("JBH_TIMEOUT").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut m) = MSG.lock() {
            *m = i.to_string();
        }
    }));
    // watchdog: the same case still running after `limit` seconds is a hang
    std::thread::spawn(move || loop {
        let c = CASE.load(SeqCst);
        for _ in 0..limit * 10 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if CASE.load(SeqCst) != c {
                break;
            }
        }
        if CASE.load(SeqCst) == c {
            std::process::exit(77);
        }
    });
    // the stack of an ordinary Rust thread
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let inp = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("input"));
        let mut outf = std::fs::File::create(&a[3]).expect("output");
        let mut out = String::new();
        if a[1] == "soak" {
            let lines: Vec<String> = inp.lines().map(|l| l.expect("line")).filter(|l| !l.is_empty()).collect();
            soak(&lines, std::env::var("JBH_ROUNDS").ok().and_then(|x| x.parse().ok()).unwrap_or(40), &mut out);
            out.push('\n');
            outf.write_all(out.as_bytes()).expect("write");
            return;
        }
        for line in inp.lines() {
            let line = line.expect("line");
            if line.is_empty() { continue; }
            CASE.fetch_add(1, SeqCst);
            out.clear();
            match a[1].as_str() {
                "parse" => parse_case(&line, &mut out),
                "total" => total_case(&line, &mut out),
                "pool" => pool::history(&line, &mut out),
                "desc" => desc::case(&line, &mut out),
                "flags" => flags_case(&line, &mut out),
                m => panic!("mode {}", m),
            }
            out.push('\n');
            outf.write_all(out.as_bytes()).expect("write");
        }
    }).expect("thread");
    if t.join().is_err() {
        eprintln!("harness error: {}", MSG.lock().map(|m| m.clone()).unwrap_or_default());
        std::process::exit(78);
    }
}
