//! C13: what a process holds on to while generations of threads use the library
//! and fail in every way.
use super::common::*;
use super::load::{make_err, SimReader};
use super::*;
use crate::worker::*;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::libcshim::{self as sys, Fault};
use simrt::rng::mix2;
use simrt::sched;
use std::cell::UnsafeCell;
use std::fmt::{self, Write as _};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Leak;

pub const KINDS: [&str; 24] = [
    "parse", "parse-refused", "parse-custom", "format", "format-custom", "valid", "type", "lookup", "load", "load-refused", "load-file",
    "load-file-fails", "load-reader-fails", "reader-panics", "sink-fails", "sink-panics", "asref-panics", "serde", "serde-damaged",
    "clone", "unwinding", "hash", "all", "long",
];

struct Ctx {
    world: World,
    cut: Vec<usize>,
    kinds: Vec<u8>,
    pool: crate::pool::Pool,
    nums: Vec<String>,
    ins: Vec<(String, Option<String>)>,
    fresh: bool,
    seed: u64,
    k: usize,
    samples: UnsafeCell<Vec<(u64, u64, u64)>>,
}

struct FailSink(u64);
impl fmt::Write for FailSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if (s.len() as u64) > self.0 {
            simrt::shm::stat("sink_error");
            return Err(fmt::Error);
        }
        self.0 -= s.len() as u64;
        Ok(())
    }
}
struct PanicSink(u64);
impl fmt::Write for PanicSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if (s.len() as u64) > self.0 {
            simrt::shm::stat("sink_panic");
            std::panic::panic_any(7u8);
        }
        self.0 -= s.len() as u64;
        Ok(())
    }
}
struct PanicStr;
impl AsRef<str> for PanicStr {
    fn as_ref(&self) -> &str {
        simrt::shm::stat("callback_panic");
        std::panic::panic_any(7u8)
    }
}
struct PanicReader<'a>(&'a [u8], u64);
impl io::Read for PanicReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = io::BufRead::fill_buf(self)?.len().min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        io::BufRead::consume(self, n);
        Ok(n)
    }
}
impl io::BufRead for PanicReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.1 == 0 {
            simrt::shm::stat("callback_panic");
            std::panic::panic_any(7u8);
        }
        self.1 -= 1;
        Ok(&self.0[..self.0.len().min(200)])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}

/// Like another one, but never seen before.
fn fresh(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
    for i in d.iter().rev().take(7) {
        v[*i] = (b'0' + r.below(10) as u8) as char;
    }
    v.into_iter().collect()
}

fn step(c: &'static Ctx, g: usize, t: usize, j: usize) {
    let _q = sched::quiet();
    let mut r = Rng::new(mix2(c.seed, mix2(g as u64 * 64 + t as u64, j as u64)));
    let kind = KINDS[*r.pick(&c.kinds) as usize];
    let (mut s, hint) = r.pick(&c.ins).clone();
    let mut n = r.pick(&c.nums).clone();
    if c.fresh {
        s = fresh(&mut r, &s);
        if kind != "parse" {
            n = fresh_json(&mut r, &n);
        }
    }
    let db = if r.chance(1, 2) { 0 } else { 1 };
    let ndb = c.world.dbs.len() as u64;
    let cdb = 2 + r.below(ndb) as usize;
    let mode = r.below(4) as u8;
    let doc = r.below(c.world.docs.len() as u64) as usize;
    let text = &c.world.docs[doc];
    let w = &c.world;
    let id = c.pool.region(&mut r);
    let code = c.pool.code(&mut r);
    let x = r.next();
    match kind {
        "parse" | "parse-refused" | "parse-custom" | "format" | "format-custom" | "valid" | "type" | "lookup" | "load" | "serde" | "hash" | "all" | "long" => {
            let op = match kind {
                "parse" => Op::Parse { db, hint, s },
                "parse-refused" => {
                    let g = ["", "+", "12", "tel:", "abc", "+999123456789", "12345678901234567890123", "00", "0000000000000000000000"];
                    let mut s = r.pick(&g).to_string();
                    if c.fresh {
                        s = format!("{}{}", s, r.below(1 << 40));
                        s.truncate(60);
                    }
                    Op::Parse { db, hint: if x & 1 == 0 { None } else { hint }, s }
                }
                "parse-custom" => Op::Parse { db: cdb, hint, s },
                "format" => Op::Format { db, n, mode },
                "format-custom" => Op::Format { db: cdb, n, mode },
                "valid" => Op::Valid { db: if x & 1 == 0 { db } else { cdb }, n },
                "type" => Op::Type { db: if x & 1 == 0 { db } else { cdb }, n },
                "lookup" => match x % 5 {
                    0 => Op::ById { db, id },
                    1 => Op::ByCode { db: cdb, code },
                    2 => Op::Country { n },
                    3 => Op::Meta { db, n },
                    _ => Op::Region { db, code },
                },
                "load" => Op::Load { doc },
                "serde" => Op::Serde { n, fmt: (x % ops::NFMT as u64) as u8 },
                "hash" => Op::Eq { a: n.clone(), b: n },
                "long" => Op::Viable { s: s.repeat(3) },
                _ => Op::All { db: if x & 1 == 0 { db } else { cdb }, hint, s },
            };
            drop(_q);
            let t = ops::run_op(w, &op);
            let _q = sched::quiet();
            drop(t);
            drop(op);
        }
        "load-refused" => {
            let d = &text[..c.cut[doc].min(text.len())];
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ops::load_str(d))));
        }
        "load-file" | "load-file-fails" => {
            let f = if kind == "load-file" { vec![] } else { vec![Fault { call: *r.pick(&[sys::C_READ, sys::C_READ, sys::C_OPEN, sys::C_CLOSE]), nth: 0, kind: *r.pick(&[libc::EIO, libc::EMFILE, libc::EACCES]) as i64 }] };
            let mut f = f;
            if let Some(x) = f.first_mut() {
                if x.call == sys::C_READ {
                    x.nth = r.below(3);
                }
            }
            sys::fs_arm(x, &f, 4000, 2000);
            let p = format!("doc{doc}.xml");
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ops::load_path(&p))));
            let _q = sched::quiet();
            sys::fs_report();
            drop((p, f));
        }
        "load-reader-fails" => {
            let st = super::load::Step { seed: x, chunk: r.log(8, 2000), eintr: 2000, fail: Some((r.below(text.len() as u64), r.pick(&["EIO", "Other", "eof", "InvalidData", "WouldBlock"]).to_string(), x & 1 == 0)), ..Default::default() };
            let mut rd = SimReader::new(text.as_bytes(), &st);
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ops::load_reader(&mut rd))));
            let _q = sched::quiet();
            let _ = make_err("EIO");
            drop(rd);
            drop(st);
        }
        "reader-panics" => {
            let k = r.below(2 + text.len() as u64 / 200);
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ops::load_reader(PanicReader(text.as_bytes(), k)))));
        }
        "sink-fails" | "sink-panics" => {
            let num = ops::number(&n);
            let at = r.below(14);
            let bad = kind == "sink-fails";
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let f = match x & 1 {
                    0 => num.format().mode(ops::mode(mode)),
                    _ => num.format_with(ops::db(w, cdb)).mode(ops::mode(mode)),
                };
                if bad {
                    let _ = write!(FailSink(at), "{}", f);
                } else {
                    let _ = write!(PanicSink(at), "{}", f);
                }
            }));
            let _q = sched::quiet();
            drop(num);
        }
        "asref-panics" => {
            let h = ops::hint(&hint);
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| match x % 4 {
                0 => drop(ops::phonenumber::parse(h, PanicStr)),
                1 => drop(ops::phonenumber::parse_with(ops::db(w, cdb), h, PanicStr)),
                2 => drop(ops::phonenumber::is_viable(PanicStr)),
                _ => drop(ops::phonenumber::metadata::Database::parse(PanicStr).is_ok()),
            }));
        }
        "serde-damaged" => {
            let fmt = (x % ops::NFMT as u64) as u8;
            let num = ops::number(&n);
            let mut b = ops::encode(&num, fmt).unwrap_or_default();
            let i = r.below(b.len() as u64 + 1) as usize;
            if x & 64 == 0 {
                b.truncate(i);
            } else if i < b.len() {
                b[i] ^= 1 << (x >> 60 & 7);
            }
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(ops::decode(&b, fmt))));
            let _q = sched::quiet();
            drop((b, num));
        }
        "clone" => {
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let d = ops::db(w, cdb).clone();
                if x & 1 == 0 {
                    let _ = d.by_code(&code);
                }
                drop(d);
            }));
        }
        _ => {
            // unwinding with everything alive
            drop(_q);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let h = ops::hint(&hint);
                let a = ops::phonenumber::parse(h, &s);
                let d = ops::db(w, cdb).clone();
                let b = ops::phonenumber::parse_with(&d, h, &s);
                let n = a.ok().or(b.ok());
                let f = n.as_ref().map(|n| n.format_with(&d).mode(ops::mode(mode)));
                let _q = sched::quiet();
                simrt::shm::stat("unwind_context");
                if f.is_some() || x & 1 == 0 {
                    std::panic::panic_any(7u8);
                }
            }));
        }
    }
}
fn fresh_json(r: &mut Rng, n: &str) -> String {
    let mut v: Value = serde_json::from_str(n).unwrap_or(Value::Null);
    let x = v["national"]["value"].as_u64().unwrap_or(0);
    let low = x & 0x00ff_ffff_ffff_ffff;
    let new = low / 10_000 * 10_000 + r.below(10_000);
    v["national"]["value"] = json!((x >> 56 << 56) | new);
    v.to_string()
}

fn body(c: &'static Ctx, g: usize, t: usize) {
    for j in 0..c.k {
        step(c, g, t, j);
    }
}
pub fn open_files() -> u64 {
    (0..200).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).count() as u64
}
fn between(c: &'static Ctx, _g: usize) {
    let fds = open_files();
    let v = unsafe { &mut *c.samples.get() };
    use std::sync::atomic::Ordering::Relaxed;
    use simrt::alloc::*;
    v.push((live() - CACHED.load(Relaxed), BLOCKS.load(Relaxed) - CACHED_BLOCKS.load(Relaxed), fds));
}
fn finish(c: &'static Ctx) -> Vec<(u64, u64, u64)> {
    unsafe { (*c.samples.get()).clone() }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Conf {
    kinds: Vec<u8>,
    fresh: bool,
    seed: u64,
    gens: usize,
    nt: usize,
    k: usize,
    nums: Vec<String>,
    ins: Vec<(String, Option<String>)>,
}

/// Bytes per operation above which growth is looked into.
const RATE: f64 = 0.5;

impl Leak {
    fn measure(&self, w: &mut Worker, case: &Value, conf: &Conf, dbs: &[String], docs: &[String], gens: usize) -> Result<Gens<Vec<(u64, u64, u64)>>, String> {
        let mut setup = Setup::of(case, 60 + gens as u64 / 2);
        setup.limit = 240;
        let dir = w.scratch.clone();
        let code = crate::symbols::search_code();
        let pool = crate::pool::Pool::new(&w.cfg.codes, w.cfg.varied);
        let cut = docs.iter().map(|d| d.len() / 2).collect();
        generations(
            w,
            &setup,
            gens,
            conf.nt,
            || {
                std::env::set_current_dir(&dir).unwrap();
                sys::fs_start("doc");
                simrt::alloc::set_cache_code(code);
                Ctx { world: build_world(dbs, docs), cut, kinds: conf.kinds.clone(), pool, nums: conf.nums.clone(), ins: conf.ins.clone(), fresh: conf.fresh, seed: conf.seed, k: conf.k, samples: UnsafeCell::new(Vec::with_capacity(gens)) }
            },
            body,
            between,
            finish,
        )
    }
}

/// Growth from the second to the last quarter: bytes, blocks, files.
fn growth(v: &[(u64, u64, u64)]) -> (i64, i64, i64) {
    let n = v.len();
    let (a, b) = (&v[n / 4..n / 2], &v[3 * n / 4..]);
    let m = |s: &[(u64, u64, u64)], f: fn(&(u64, u64, u64)) -> u64| s.iter().map(f).max().unwrap_or(0) as i64;
    (m(b, |x| x.0) - m(a, |x| x.0), m(b, |x| x.1) - m(a, |x| x.1), m(b, |x| x.2) - m(a, |x| x.2))
}

impl Prop for Leak {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, _idx: u64) -> Option<Value> {
        let ins: Vec<_> = (0..r.range(1, 3)).map(|_| super::conc::input(w, r.below(300))).collect();
        let nums: Vec<String> = (0..r.range(1, 3)).map(|_| super::sink::gen_number(w, r, &[])).collect();
        let mut dbs = Vec::new();
        for _ in 0..r.range(1, 2) {
            let mut q = Rng::new(mix2(w.seed ^ 0xdb, r.below(20)));
            dbs.push(super::conc::custom_db(w, &mut q));
        }
        let docs = vec![dbs[0].clone()];
        let mut kinds: Vec<u8> = Vec::new();
        for _ in 0..*r.pick(&[1, 1, 2, 3, 5]) {
            kinds.push(r.below(KINDS.len() as u64) as u8);
        }
        let nt = if r.chance(1, 2) { 1 } else { r.range(2, 4) } as usize;
        // many short-lived threads, or few that live long
        let (gens, k) = match r.below(3) {
            0 => (48, 1),
            1 => (24, r.range(2, 8) as usize),
            _ => (16, r.range(8, 24) as usize),
        };
        let heavy = kinds.iter().any(|k| KINDS[*k as usize].starts_with("load") || KINDS[*k as usize].starts_with("reader"));
        let k = if heavy { k.min(4) } else { k };
        let conf = Conf { kinds, fresh: r.chance(1, 2), seed: r.next() & 0xffff_ffff, gens, nt, k, nums, ins };
        let mut plan = super::conc::random_plan(r, 20_000 * (nt * k) as u64, nt);
        budget(&mut plan, 400_000_000);
        Some(json!({"dbs": dbs, "docs": docs, "conf": conf, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": *r.pick(&[0, 1, 4])}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = from_case(case, "dbs")?;
        let docs: Vec<String> = from_case(case, "docs")?;
        let conf: Conf = from_case(case, "conf")?;
        if conf.kinds.is_empty() || conf.nums.is_empty() || conf.ins.is_empty() || dbs.is_empty() || docs.is_empty() {
            return Ok(None);
        }
        for (i, t) in docs.iter().enumerate() {
            std::fs::write(format!("{}/doc{i}.xml", w.scratch), t).map_err(|e| e.to_string())?;
        }
        let names: Vec<&str> = conf.kinds.iter().map(|k| KINDS[*k as usize]).collect();
        let mut gens = conf.gens;
        let mut rounds = 0;
        loop {
            let v = match self.measure(w, case, &conf, &dbs, &docs, gens)? {
                Gens::Done(v) => v,
                Gens::Bad(c, m, g) => return Ok(Some(Violation::new(&c, format!("{names:?}, generation {g}: {m}")))),
            };
            let (bytes, blocks, files) = growth(&v);
            let nops = (gens / 2 * conf.nt * conf.k) as f64;
            if !w.mute {
                w.probe("generations of threads", gens as u64);
                w.probe("operations", (gens * conf.nt * conf.k) as u64);
                for n in &names {
                    w.probe(&format!("kind: {n}"), 1);
                }
                if std::env::var_os("SIM_SHOW").is_some() {
                    eprintln!("{names:?} fresh {} gens {gens} nt {} k {} growth {bytes} B {blocks} blocks {files} files over {nops} ops: {:.2}; {:?}", conf.fresh, conf.nt, conf.k, bytes as f64 / nops, v.iter().map(|x| x.0).step_by(gens / 8).collect::<Vec<_>>());
                }
            }
            if (bytes as f64) < RATE * nops && files <= 0 {
                if !w.mute {
                    let mut sig = conf.seed;
                    for x in &v {
                        sig = mix2(sig, x.0 ^ x.2);
                    }
                    w.seen(sig, true);
                }
                return Ok(None);
            }
            // caches fill up: only growth that goes on counts
            if rounds == 2 {
                let class = if files > 0 { "files-leak" } else { "memory-grows" };
                return Ok(Some(Violation::new(
                    class,
                    format!("{} operations of the kinds {names:?} on generations of {} threads: between the second and the last quarter live memory grew by {bytes} bytes ({blocks} blocks), open files by {files}", gens * conf.nt * conf.k, conf.nt),
                )));
            }
            w.probe("growth looked into", 1);
            gens *= 8;
            rounds += 1;
        }
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["kinds", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 16-48 generations of 1-4 threads that each do 1-24 operations of 1-5 kinds out of 24 (succeeding, refused, failing sinks, readers and files, panicking callbacks, unwinding, loads and clones that are dropped), on repeated or ever-new inputs; live heap bytes and open files are compared between the second and the last quarter, and growth is followed up with 8 and 64 times as many operations before it counts. Distinct = distinct series of live memory; every case is non-trivial"
    }
    fn real(&self) -> &'static str {
        "the whole library (instrumented build of /repo) with its regex, xml and serde dependencies, std threads and files"
    }
    fn stub(&self) -> &'static str {
        "allocator (counts live bytes), scheduler, disk faults, sinks and readers, clock, entropy, environment"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["growth below 0.5 bytes per operation counts as caches filling up", "a cache with an upper bound that is not reached after 64 times the case's operations would be reported as growth"]
    }
}
