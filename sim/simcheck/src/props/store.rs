//! C11: numbers written to a log by one process and read back by another after
//! a crash.
use super::common::*;
use super::load::{self, SimReader};
use super::sink::{self, SimSink};
use super::*;
use crate::worker::*;
use ops::phonenumber::PhoneNumber;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::hash::{Hash, Hasher};

pub struct Store;

/// Where a number comes from.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Src {
    hint: Option<String>,
    s: String,
    /// given instead of a text
    json: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Write {
    src: usize,
    fmt: u8,
    /// through a stream that does this to it, or into memory
    sink: Option<sink::Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Written {
    show: String,
    uses: String,
    bytes: Vec<u8>,
    ok: bool,
    err: String,
    /// what the format makes of it in memory, when a stream was used
    whole: Option<Vec<u8>>,
    injected: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Read {
    t: usize,
    j: usize,
    /// all, cut, bits, bytes, zero, swap, insert, splice
    damage: String,
    x: u64,
    stream: Option<load::Step>,
}
/// Outcome of reading a record.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Back {
    Refused(String),
    Number { show: String, uses: String, equal: bool, again: Result<(), String> },
}

struct WCtx {
    world: World,
    srcs: Vec<Src>,
    threads: Vec<Vec<Write>>,
}
struct RCtx {
    world: World,
    srcs: Vec<Src>,
    /// format, source, stored bytes, stream, number the writer saw, is it damaged
    recs: Vec<Vec<(u8, usize, Vec<u8>, Option<load::Step>, bool)>>,
}

fn make(w: &World, s: &Src) -> Option<PhoneNumber> {
    match &s.json {
        Some(j) => Some(ops::number(j)),
        None => ops::parse(w, 0, ops::hint(&s.hint), &s.s).ok(),
    }
}
fn show(n: &PhoneNumber) -> String {
    let _q = sched::quiet();
    format!(
        "+{} by {:?}, {} with {} zeros, ext {:?}, carrier {:?}",
        n.code().value(),
        n.code().source(),
        n.national().value(),
        n.national().zeros(),
        n.extension().map(|e| e.to_string()),
        n.carrier().map(|c| c.to_string())
    )
}
fn hash(n: &PhoneNumber) -> u64 {
    let mut h = ops::Fnv(1);
    n.hash(&mut h);
    h.finish()
}
fn uses(w: &World, n: &PhoneNumber) -> String {
    let u = ops::use_number(w, 0, n);
    let d = ops::text(n);
    let _q = sched::quiet();
    format!("{u} {d}")
}

fn write(c: &'static WCtx, t: usize, j: usize) -> Option<Written> {
    let s = &c.threads[t][j];
    let n = make(&c.world, &c.srcs[s.src])?;
    let mut o = Written { show: show(&n), ..Default::default() };
    match &s.sink {
        None => match ops::encode(&n, s.fmt) {
            Ok(b) => {
                o.bytes = b;
                o.ok = true;
            }
            Err(e) => o.err = e,
        },
        Some(k) => {
            let mut k = SimSink::new(k);
            match ops::encode_writer(&mut k as &mut dyn std::io::Write, &n, s.fmt) {
                Ok(()) => o.ok = true,
                Err(e) => o.err = e,
            }
            let _q = sched::quiet();
            o.injected = k.failed > 0;
            o.bytes = k.got.clone();
            o.whole = ops::encode(&n, s.fmt).ok();
        }
    }
    o.uses = uses(&c.world, &n);
    Some(o)
}

fn read(c: &'static RCtx, t: usize, j: usize) -> Back {
    let (fmt, src, bytes, stream, damaged) = &c.recs[t][j];
    let r = match stream {
        None => ops::decode(bytes, *fmt),
        Some(s) => ops::decode_reader(SimReader::new(bytes, s), *fmt),
    };
    let n = match r {
        Ok(n) => n,
        Err(e) => return Back::Refused(e),
    };
    let u = uses(&c.world, &n);
    let equal = match make(&c.world, &c.srcs[*src]) {
        Some(m) => m == n && n == m && hash(&m) == hash(&n),
        None => false,
    };
    // written once more, in every format
    let mut again = Ok(());
    for f in 0..ops::NFMT {
        match ops::encode(&n, f).and_then(|b| ops::decode(&b, f).map(|m| (b, m))) {
            Ok((b, m)) => {
                if show(&m) != show(&n) || m != n {
                    again = Err(format!("written again as {} it reads {}", ops::FMT_NAMES[f as usize], show(&m)));
                } else if f == *fmt && !damaged && b != *bytes {
                    again = Err(format!("written again as {} it has other bytes", ops::FMT_NAMES[f as usize]));
                }
            }
            Err(e) => again = Err(format!("cannot be stored again as {}: {e}", ops::FMT_NAMES[f as usize])),
        }
    }
    Back::Number { show: show(&n), uses: u, equal, again }
}

/// The record as the disk gives it back.
fn damage(b: &[u8], other: &[u8], kind: &str, x: u64) -> Vec<u8> {
    let mut r = Rng::new(x);
    let mut v = b.to_vec();
    if v.is_empty() {
        return v;
    }
    let n = v.len() as u64;
    match kind {
        "cut" => v.truncate(x as usize % v.len()),
        "bits" => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(n) as usize;
                v[i] ^= 1 << r.below(8);
            }
        }
        "bytes" => {
            for _ in 0..r.range(1, 4) {
                let i = r.below(n) as usize;
                v[i] = *r.pick(&[0, 255, 128, b'0', b'9', b'"', b'{', b'-', b'e', 0x7f, 0x1b, 0xfb]);
            }
        }
        "zero" => {
            let i = r.below(n) as usize;
            let k = r.range(1, 16) as usize;
            for c in v.iter_mut().skip(i).take(k) {
                *c = 0;
            }
        }
        "swap" => {
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            v.swap(i, j);
        }
        "insert" => {
            let i = r.below(n + 1) as usize;
            for _ in 0..r.range(1, 20) {
                v.insert(i, *r.pick(&[b'9', b'1', b'0', 0, 255]));
            }
        }
        "splice" => {
            let i = r.below(n) as usize;
            v.truncate(i);
            let k = r.below(other.len() as u64 + 1) as usize;
            v.extend_from_slice(&other[k..]);
        }
        _ => {}
    }
    v
}

impl Prop for Store {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let cap = (100 + idx).min(4000);
        let mut srcs = Vec::new();
        for _ in 0..r.range(2, 8) {
            let (s, hint) = super::conc::input(w, r.below(cap));
            if r.chance(1, 3) {
                let n = sink::gen_number(w, r, &[]);
                srcs.push(Src { hint: None, s: String::new(), json: Some(n) });
            } else {
                let ok = w.reference(&Op::Json { db: 0, hint: hint.clone(), s: s.clone() }, &[], &[]).text.starts_with('{');
                if ok {
                    srcs.push(Src { hint, s, json: None });
                }
            }
        }
        if srcs.is_empty() {
            return None;
        }
        let nt = r.range(1, 2) as usize;
        let only = if r.chance(1, 3) { Some(r.below(ops::NFMT as u64) as u8) } else { None };
        let mut threads: Vec<Vec<Write>> = Vec::new();
        let mut reads = Vec::new();
        for t in 0..nt {
            let mut v = Vec::new();
            for j in 0..r.range(2, 16) as usize {
                let fmt = only.unwrap_or(r.below(ops::NFMT as u64) as u8);
                let sink = if r.chance(1, 3) {
                    Some(sink::Step {
                        seed: r.next() & 0xffff_ffff,
                        sink: "io".into(),
                        kind: r.pick(&["ENOSPC", "EIO", "Other", "zero", "BrokenPipe"]).to_string(),
                        at: if r.chance(1, 2) { Some(r.below(150)) } else { None },
                        once: r.chance(1, 3),
                        short: r.below(9),
                        eintr: if r.chance(1, 2) { 6000 } else { 0 },
                        ..Default::default()
                    })
                } else {
                    None
                };
                v.push(Write { src: r.below(srcs.len() as u64) as usize, fmt, sink });
                for _ in 0..r.range(1, 6) {
                    let damage = match r.below(12) {
                        0..=3 => "all",
                        4..=6 => "cut",
                        7 | 8 => "bits",
                        _ => *r.pick(&["bytes", "zero", "swap", "insert", "splice"]),
                    };
                    let stream = if r.chance(1, 3) { Some(load::Step { seed: r.next() & 0xffff_ffff, chunk: r.range(1, 9), eintr: if r.chance(1, 2) { 8000 } else { 0 }, ..Default::default() }) } else { None };
                    reads.push(Read { t, j, damage: damage.into(), x: r.next() & 0xffff_ffff, stream });
                }
            }
            threads.push(v);
        }
        r.shuffle(&mut reads);
        let rt = r.range(1, 3);
        let mut plan = super::conc::random_plan(r, 200_000, nt.max(rt as usize));
        budget(&mut plan, 400_000_000);
        // where the crash falls, in 1/1000 of each thread's log
        Some(json!({"srcs": srcs, "threads": threads, "reads": reads, "readers": rt, "crash": r.below(1300), "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let srcs: Vec<Src> = from_case(case, "srcs")?;
        let threads: Vec<Vec<Write>> = from_case(case, "threads")?;
        let reads: Vec<Read> = from_case(case, "reads")?;
        let nr = case["readers"].as_u64().unwrap_or(1).max(1) as usize;
        let crash = case["crash"].as_u64().unwrap_or(2000);
        if srcs.is_empty() || threads.is_empty() {
            return Ok(None);
        }
        let setup = Setup::of(case, 60);
        let steps: Vec<usize> = threads.iter().map(|t| t.len()).collect();
        let out = match simulate(w, &setup, &steps, || WCtx { world: World::default(), srcs: srcs.clone(), threads: threads.clone() }, write, None::<fn(&'static WCtx)>)? {
            Sim::Done(o) => o,
            Sim::Died(c, m, at, acts) => return viol(case, &acts, &c, format!("writing, thread {} step {}: {m}", at.0, at.1)),
        };
        if out.end != "done" {
            return viol(case, &out.acts, end_class(&out.end), format!("writing: {}", out.end));
        }
        let mut sig = out.hash;
        let mut log: Vec<Vec<Option<Written>>> = Vec::new();
        for (t, v) in out.res.iter().enumerate() {
            let mut l = Vec::new();
            for (j, g) in v.iter().enumerate() {
                match g {
                    Got::Never => return viol(case, &out.acts, "lost", format!("write {t}.{j} never returned")),
                    Got::Panic(m) => return viol(case, &out.acts, "panic", format!("write {t}.{j} {:?} panicked: {m}", threads[t][j])),
                    Got::Val(None) => l.push(None),
                    Got::Val(Some(x)) => {
                        if x.ok {
                            if let Some(whole) = &x.whole {
                                if *whole != x.bytes {
                                    return viol(case, &out.acts, "lost-bytes", format!("write {t}.{j}: {} reported success on a stream that received {} of {} bytes", ops::FMT_NAMES[threads[t][j].fmt as usize], x.bytes.len(), whole.len()));
                                }
                            }
                        } else if !x.injected {
                            return viol(case, &out.acts, "cannot-store", format!("write {t}.{j}: {} as {}: {}", x.show, ops::FMT_NAMES[threads[t][j].fmt as usize], x.err));
                        }
                        // what the number is, told by the text it was made from
                        let s = &srcs[threads[t][j].src];
                        if let Some(js) = &s.json {
                            let v: Value = serde_json::from_str(js).map_err(|e| e.to_string())?;
                            let nat = v["national"]["value"].as_u64().unwrap_or(0);
                            let want = format!("+{} by ", v["code"]["value"]);
                            let want2 = format!(", {} with {} zeros, ext {:?}, carrier {:?}", nat & 0xff_ffff_ffff_ffff, nat >> 56, v["extension"].as_str(), v["carrier"].as_str());
                            if !x.show.starts_with(&want) || !x.show.ends_with(&want2) {
                                return viol(case, &out.acts, "misread", format!("{js} reads as {}", x.show));
                            }
                        }
                        l.push(Some(x.clone()));
                    }
                }
            }
            log.push(l);
        }
        // what the disk holds after the crash
        let mut recs: Vec<Vec<(u8, usize, Vec<u8>, Option<load::Step>, bool)>> = vec![Vec::new(); nr];
        let mut what: Vec<Vec<(usize, usize, String)>> = vec![Vec::new(); nr];
        let mut torn = 0;
        for (i, rd) in reads.iter().enumerate() {
            let (Some(l), Some(ws)) = (log.get(rd.t), threads.get(rd.t)) else { continue };
            let (Some(Some(x)), Some(ws)) = (l.get(rd.j), ws.get(rd.j)) else { continue };
            let total: usize = l.iter().flatten().map(|y| y.bytes.len()).sum();
            let at = total * crash as usize / 1000;
            let before: usize = l[..rd.j].iter().flatten().map(|y| y.bytes.len()).sum();
            let (kind, bytes) = if before >= at && at < total {
                // not on the disk
                continue;
            } else if before + x.bytes.len() > at && at < total {
                torn += 1;
                ("cut".to_string(), x.bytes[..at - before].to_vec())
            } else if !x.ok {
                ("cut".to_string(), x.bytes.clone())
            } else {
                let other = l.iter().flatten().map(|y| &y.bytes).next().unwrap();
                (rd.damage.clone(), damage(&x.bytes, other, &rd.damage, rd.x))
            };
            match kind.as_str() {
                "all" | "cut" => {}
                "bits" => w.fault("flip", 1),
                _ => w.fault("corruption", 1),
            }
            let kind = if kind != "all" && x.ok && bytes == x.bytes { "all".to_string() } else { kind };
            recs[i % nr].push((ws.fmt, ws.src, bytes, rd.stream.clone(), kind != "all"));
            what[i % nr].push((rd.t, rd.j, kind));
        }
        w.fault("torn_record", torn);
        w.fault("crash_restart", 1);
        let steps: Vec<usize> = recs.iter().map(|t| t.len()).collect();
        let mut s2 = Setup::of(case, 60);
        s2.env = mix2(s2.env, 1);
        s2.plan.seed = mix2(s2.plan.seed, 1);
        let out = match simulate(w, &s2, &steps, || RCtx { world: World::default(), srcs: srcs.clone(), recs: recs.clone() }, read, None::<fn(&'static RCtx)>)? {
            Sim::Done(o) => o,
            Sim::Died(c, m, at, acts) => {
                let d = what.get(at.0).and_then(|t| t.get(at.1)).map(|(t, j, k)| format!("{k}: {}", describe(&threads[*t][*j], &recs[at.0][at.1].2))).unwrap_or_default();
                return viol(case, &acts, &c, format!("reading {d}: {m}"));
            }
        };
        if out.end != "done" {
            return viol(case, &out.acts, end_class(&out.end), format!("reading: {}", out.end));
        }
        sig = mix2(sig, out.hash);
        for (t, v) in out.res.iter().enumerate() {
            for (j, g) in v.iter().enumerate() {
                let (wt, wj, kind) = &what[t][j];
                let x = log[*wt][*wj].as_ref().unwrap();
                let d = || format!("{} ({kind}, {})", describe(&threads[*wt][*wj], &recs[t][j].2), if recs[t][j].3.is_some() { "streamed" } else { "from memory" });
                w.probe(&format!("read: {kind}"), 1);
                match g {
                    Got::Never => return viol(case, &out.acts, "lost", format!("reading {} never returned", d())),
                    Got::Panic(m) => return viol(case, &out.acts, "panic", format!("reading {} panicked: {m}", d())),
                    Got::Val(Back::Refused(e)) => {
                        sig = mix2(sig, 3);
                        if kind == "all" {
                            return viol(case, &out.acts, "unreadable", format!("{} written as {} is refused: {e}", x.show, d()));
                        }
                        w.probe("refused", 1);
                    }
                    Got::Val(Back::Number { show, uses, equal, again }) => {
                        sig = mix2(sig, hash_str(show));
                        if let Err(e) = again {
                            return viol(case, &out.acts, "not-storable", format!("{show} read from {}: {e}", d()));
                        }
                        if kind == "all" || kind == "cut" {
                            if *show != x.show {
                                return viol(case, &out.acts, if kind == "all" { "changed" } else { "cut-changed" }, format!("{} written\n  {show}\n  read back from {}", x.show, d()));
                            }
                            if *uses != x.uses || !*equal {
                                return viol(case, &out.acts, "behaves-differently", format!("{}\n  before: {}\n  after:  {uses}\n  equal: {equal}; {}", x.show, x.uses, d()));
                            }
                        }
                        if kind == "cut" {
                            w.probe("cut record still read", 1);
                        }
                    }
                }
            }
        }
        let n: usize = steps.iter().sum();
        w.probe("records written", log.iter().flatten().flatten().filter(|x| x.ok).count() as u64);
        w.probe("records read", n as u64);
        w.seen(sig, n > 0);
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["reads", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 1-2 threads of a process write 2-16 numbers each (parsed or given, all optional parts) in 9 ways of serialising, to memory or to a stream that fails, accepts parts and is interrupted; a crash cuts the log at a seeded byte; 1-3 threads of another process read the records back, whole, torn or damaged, from memory or in pieces, and use them. Distinct = distinct event hashes and results; non-trivial = something was read"
    }
    fn real(&self) -> &'static str {
        "the library's serde implementations and everything used on decoded numbers (instrumented build of /repo), serde_json, postcard, bincode, ciborium"
    }
    fn stub(&self) -> &'static str {
        "storage (log, torn tail, damage), streams, scheduler, clocks, entropy, environment"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the store keeps record boundaries but no checksums", "bincode streams are read with a size limit, as its documentation asks for untrusted data"]
    }
}

fn describe(w: &Write, b: &[u8]) -> String {
    let t: String = b.iter().take(120).map(|c| if (32..127).contains(c) { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect();
    format!("{} {t}", ops::FMT_NAMES[w.fmt as usize])
}
