//! C09: formatting into sinks that fail, stall, accept parts or recover.
use super::common::*;
use super::load::make_err;
use super::*;
use crate::worker::*;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::fmt::{self, Write as _};
use std::io::{self, Write as _};

pub struct Sink;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub db: usize,
    pub n: String,
    pub mode: u8,
    /// format, with, display, national, extension, carrier
    pub what: String,
    pub region: String,
    pub k: usize,
    /// 0 plain, 1 width, 2 precision, 3 both, 4 zero-padded width, 5 alternate, 6 left
    pub spec: u8,
    pub w: usize,
    pub p: usize,
    /// fmt, io, buf, line, slice, dyn
    pub sink: String,
    pub cap: usize,
    pub seed: u64,
    /// 1/65536 per write
    pub eintr: u32,
    /// largest piece an io sink accepts per call, 0 = all
    pub short: u64,
    /// fail once so many bytes were accepted
    pub at: Option<u64>,
    /// fail at this call
    pub call: Option<u64>,
    /// an error kind, or "zero" (accepts nothing, reports no error)
    pub kind: String,
    pub once: bool,
    /// a failing fmt sink keeps the part that fits
    pub partial: bool,
    /// 1/65536 per call: the sink is slow
    pub delay: u32,
}

pub struct SimSink {
    pub got: Vec<u8>,
    calls: u64,
    pub failed: u64,
    pub eintrs: u64,
    pub shorts: u64,
    s: Step,
    rng: Rng,
    done: bool,
}
impl SimSink {
    pub fn new(s: &Step) -> SimSink {
        SimSink { got: Vec::new(), calls: 0, failed: 0, eintrs: 0, shorts: 0, s: s.clone(), rng: Rng::new(s.seed), done: false }
    }
    fn slow(&mut self) {
        sched::sys_event();
        if self.s.delay > 0 && (self.rng.next() & 0xffff) < self.s.delay as u64 {
            std::thread::sleep(std::time::Duration::from_micros(1 + (self.rng.next() & 0xfffff)));
        }
    }
    /// room before the failure; 0 = this call fails
    fn room(&mut self, n: usize) -> usize {
        let c = self.calls;
        self.calls += 1;
        if self.done {
            return n;
        }
        if self.s.call.is_some_and(|k| c >= k) {
            return 0;
        }
        match self.s.at {
            Some(a) if self.got.len() as u64 + n as u64 > a => (a as usize).saturating_sub(self.got.len()),
            _ => n,
        }
    }
    fn fail(&mut self) {
        self.failed += 1;
        simrt::shm::stat("sink_error");
        if self.s.once {
            self.done = true;
        }
    }
}
impl fmt::Write for SimSink {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        self.slow();
        let _q = sched::quiet();
        let n = self.room(t.len());
        if n < t.len() || (n == 0 && self.s.call.is_some_and(|k| self.calls > k) && !self.done) {
            if self.s.partial {
                let mut e = n;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                self.got.extend_from_slice(&t.as_bytes()[..e]);
            }
            self.fail();
            return Err(fmt::Error);
        }
        self.got.extend_from_slice(t.as_bytes());
        Ok(())
    }
}
impl io::Write for SimSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.slow();
        let _q = sched::quiet();
        if b.is_empty() {
            return Ok(0);
        }
        if self.s.eintr > 0 && (self.rng.next() & 0xffff) < self.s.eintr as u64 {
            self.eintrs += 1;
            simrt::shm::stat("write_eintr");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = self.room(b.len());
        if n == 0 {
            self.fail();
            if self.s.kind == "zero" {
                return Ok(0);
            }
            simrt::shm::stat("write_error");
            return Err(make_err(&self.s.kind));
        }
        if self.s.short > 0 {
            n = n.min(self.rng.range(1, self.s.short) as usize);
        }
        if n < b.len() {
            self.shorts += 1;
            simrt::shm::stat("write_short");
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
struct Out {
    ok: bool,
    err: String,
    got: String,
    failed: u64,
    calls: u64,
    eintrs: u64,
    shorts: u64,
}

macro_rules! put {
    ($w:expr, $s:expr, $d:expr) => {
        match $s.spec {
            1 => write!($w, "{:>w$}", $d, w = $s.w),
            2 => write!($w, "{:.p$}", $d, p = $s.p),
            3 => write!($w, "{:*^w$.p$}", $d, w = $s.w, p = $s.p),
            4 => write!($w, "{:0w$}", $d, w = $s.w),
            5 => write!($w, "{:#}", $d),
            6 => write!($w, "{:<w$}", $d, w = $s.w),
            7 => write!($w, "{:+}", $d),
            8 => write!($w, "<{}|{}>", $d, $d),
            _ => write!($w, "{}", $d),
        }
    };
}

fn emit<D: fmt::Display>(s: &Step, d: D) -> Out {
    let mut k = SimSink::new(s);
    let r: Result<(), String> = match s.sink.as_str() {
        "io" => put!(&mut k as &mut dyn io::Write, s, d).map_err(|e| e.to_string()),
        "buf" | "line" => {
            let line = s.sink == "line";
            if line {
                let mut b = io::LineWriter::with_capacity(s.cap, &mut k);
                let r = put!(b, s, d).and_then(|_| b.flush());
                // what is still buffered stays there, as when the process ends
                std::mem::forget(b);
                r.map_err(|e| e.to_string())
            } else {
                let mut b = io::BufWriter::with_capacity(s.cap, &mut k);
                let r = put!(b, s, d).and_then(|_| b.flush());
                drop(b.into_parts());
                r.map_err(|e| e.to_string())
            }
        }
        "slice" => {
            let mut v = vec![0u8; s.cap];
            let mut c = io::Cursor::new(&mut v[..]);
            let r = put!(c, s, d).map_err(|e| e.to_string());
            let n = c.position() as usize;
            v.truncate(n);
            k.got = v;
            if r.is_err() {
                k.failed = 1;
                simrt::shm::stat("sink_error");
            }
            r
        }
        "dyn" => put!(&mut k as &mut dyn fmt::Write, s, d).map_err(|e| e.to_string()),
        _ => fmtsink(s, &d, &mut k).map_err(|e| e.to_string()),
    };
    let _q = sched::quiet();
    Out {
        ok: r.is_ok(),
        err: r.err().unwrap_or_default(),
        got: String::from_utf8_lossy(&k.got).into_owned(),
        failed: k.failed,
        calls: k.calls,
        eintrs: k.eintrs,
        shorts: k.shorts,
    }
}
// `SimSink` implements both `Write` traits: name the one meant
fn fmtsink<D: fmt::Display>(s: &Step, d: &D, k: &mut SimSink) -> fmt::Result {
    struct W<'a>(&'a mut SimSink);
    impl fmt::Write for W<'_> {
        fn write_str(&mut self, t: &str) -> fmt::Result {
            fmt::Write::write_str(self.0, t)
        }
    }
    put!(W(k), s, d)
}

struct Ctx {
    world: World,
    steps: Vec<Vec<Step>>,
}
fn body(c: &'static Ctx, t: usize, j: usize) -> Out {
    let s = &c.steps[t][j];
    let n = ops::number(&s.n);
    let db = |k| ops::db(&c.world, k);
    match s.what.as_str() {
        "display" => emit(s, &n),
        "national" => emit(s, n.national()),
        "extension" => match n.extension() {
            Some(x) => emit(s, x),
            None => Out { ok: true, ..Default::default() },
        },
        "carrier" => match n.carrier() {
            Some(x) => emit(s, x),
            None => Out { ok: true, ..Default::default() },
        },
        "with" => match db(s.db).by_id(s.region.as_str()).and_then(|x| x.formats().get(s.k % x.formats().len().max(1))) {
            Some(f) => emit(s, ops::phonenumber::format(&n).database(db(s.db)).mode(ops::mode(s.mode)).with(f)),
            None => Out { ok: true, ..Default::default() },
        },
        _ => match s.db {
            0 => emit(s, n.format().mode(ops::mode(s.mode))),
            d => emit(s, n.format_with(db(d)).mode(ops::mode(s.mode))),
        },
    }
}

fn healthy(s: &Step) -> Step {
    Step { sink: "fmt".into(), eintr: 0, short: 0, at: None, call: None, delay: 0, ..s.clone() }
}

fn gen_step(r: &mut Rng, n: String, ndb: usize, region: String) -> Step {
    let mut s = Step { n, mode: r.below(4) as u8, region, k: r.below(6) as usize, seed: r.next() & 0xffff_ffff, ..Default::default() };
    s.db = if ndb > 0 && r.chance(1, 2) { 2 + r.below(ndb as u64) as usize } else { r.below(2) as usize };
    s.what = r.pick(&["format", "format", "format", "format", "format", "with", "display", "national", "extension", "carrier"]).to_string();
    s.spec = if r.chance(1, 2) { 0 } else { r.range(1, 8) as u8 };
    s.w = r.log(1, 60) as usize;
    s.p = r.below(20) as usize;
    s.sink = r.pick(&["fmt", "fmt", "fmt", "io", "io", "buf", "line", "slice", "dyn"]).to_string();
    s.cap = if s.sink == "slice" { r.below(40) } else { r.log(1, 30) } as usize;
    if r.chance(1, 3) {
        s.eintr = *r.pick(&[3000, 20000, 45000]);
    }
    if r.chance(1, 2) {
        s.short = r.log(1, 12);
    }
    s.delay = *r.pick(&[0, 0, 0, 8000]);
    match r.below(8) {
        0 => {}
        1..=4 => s.at = Some(r.below(40)),
        5 => s.at = Some(r.below(6)),
        _ => s.call = Some(r.below(12)),
    }
    s.kind = r.pick(&["Other", "EIO", "ENOSPC", "BrokenPipe", "TimedOut", "WouldBlock", "PermissionDenied", "zero", "InvalidData", "OutOfMemory"]).to_string();
    s.once = r.chance(1, 2);
    s.partial = r.chance(1, 2);
    s
}

/// A number as a caller may hold it: parsed, or assembled from parts.
pub fn gen_number(w: &mut Worker, r: &mut Rng, dbs: &[String]) -> String {
    if r.chance(1, 2) {
        let i = r.below(400);
        let (s, hint) = super::conc::input(w, i);
        let t = w.reference(&Op::Json { db: 0, hint, s }, dbs, &[]).text;
        if t.starts_with('{') {
            return t;
        }
    }
    let t = r.pick(&w.pool.terrs).clone();
    let mut d = w.pool.national(r, &t);
    if r.chance(1, 4) {
        let k = r.range(1, 12) as usize;
        d = format!("{}{d}", "0".repeat(k));
    }
    d.truncate(17);
    if r.chance(1, 6) {
        d = "0".repeat(r.log(1, 255) as usize);
    }
    let code = if r.chance(1, 12) { *r.pick(&[0u64, 999, 65535]) } else { t.code as u64 };
    let t = super::damage::njson(r, code, &d);
    if !r.chance(1, 4) {
        return t;
    }
    // parts of any length
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let key = *r.pick(&["extension", "extension", "extension", "carrier"]);
    let k = r.log(1, 400) as usize;
    let mut x = String::new();
    while x.len() < k {
        x.push_str(*r.pick(&["0", "1", "12", "345", "9", "77", "é", "x", "$1"]));
        if r.chance(1, 3) {
            let again = x.clone();
            x.push_str(&again);
        }
    }
    v[key] = json!(x);
    v.to_string()
}

/// What a complete text has in any case, whatever the rules of the region.
fn complete(s: &Step, text: &str) -> Option<String> {
    if s.spec != 0 || !matches!(s.what.as_str(), "format" | "with") {
        return None;
    }
    let v: Value = serde_json::from_str(&s.n).ok()?;
    let code = v["code"]["value"].as_u64()?;
    let n = v["national"]["value"].as_u64()?;
    let national = format!("{}{}", "0".repeat((n >> 56) as usize), n & 0x00ff_ffff_ffff_ffff);
    let head = match s.mode % 4 {
        0 => {
            let want = format!("+{code}{national}");
            return (text != want).then_some(format!("E.164 of {code} {national} is {want}"));
        }
        3 => format!("tel:+{code}-"),
        1 => format!("+{code} "),
        _ => String::new(),
    };
    if !text.starts_with(&head) {
        return Some(format!("does not start with {head:?}"));
    }
    let ext = v["extension"].as_str().unwrap_or("");
    if !text[head.len()..].ends_with(ext) {
        return Some(format!("does not end with the extension {ext:?}"));
    }
    None
}

impl Prop for Sink {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, _idx: u64) -> Option<Value> {
        let mut dbs = Vec::new();
        if r.chance(1, 2) {
            let mut q = Rng::new(mix2(w.seed ^ 0xdb, r.below(40)));
            dbs.push(super::conc::custom_db(w, &mut q));
        }
        let nt = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
        let nums: Vec<String> = (0..r.range(1, 5)).map(|_| gen_number(w, r, &[])).collect();
        let mut threads = Vec::new();
        for _ in 0..nt {
            let mut v = Vec::new();
            for _ in 0..r.range(4, 30) {
                let n = r.pick(&nums).clone();
                let reg = w.pool.region(r);
                v.push(gen_step(r, n, dbs.len(), reg));
            }
            threads.push(v);
        }
        let mut plan = super::conc::random_plan(r, 60_000 * nt, nt as usize);
        budget(&mut plan, 150_000_000);
        Some(json!({"dbs": dbs, "threads": threads, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = from_case(case, "dbs")?;
        let threads: Vec<Vec<Step>> = from_case(case, "threads")?;
        let lens: Vec<usize> = threads.iter().map(|t| t.len()).collect();
        if lens.iter().sum::<usize>() == 0 {
            return Ok(None);
        }
        // what a sink that never fails receives; each thread's steps in a process of their own
        let mut full: Vec<Vec<Got<Out>>> = Vec::new();
        for t in &threads {
            let h = vec![t.iter().map(healthy).collect::<Vec<_>>()];
            let s = Setup { limit: 30, plan: serial_plan(), env: 0, heap: 0 };
            let (h2, d2) = (&h, &dbs);
            match simulate(w, &s, &[t.len()], || Ctx { world: build_world(d2, &[]), steps: h2.clone() }, body, None::<fn(&'static Ctx) -> ()>)? {
                Sim::Done(o) if o.end == "done" => full.push(o.res.into_iter().next().unwrap()),
                Sim::Done(o) => return viol(case, &[], end_class(&o.end), format!("formatting into a healthy sink: {}", o.end)),
                Sim::Died(c, m, at, _) => return viol(case, &[], &c, format!("formatting {} into a healthy sink: {m}", t.get(at.1).map(|s| s.n.as_str()).unwrap_or(""))),
            }
        }
        let setup = Setup::of(case, 30);
        let (t2, d2) = (&threads, &dbs);
        let out = simulate(w, &setup, &lens, || Ctx { world: build_world(d2, &[]), steps: t2.clone() }, body, None::<fn(&'static Ctx) -> ()>)?;
        let o = match out {
            Sim::Done(o) => o,
            Sim::Died(c, m, at, acts) => {
                let s = threads.get(at.0).and_then(|t| t.get(at.1));
                return viol(case, &acts, &c, format!("{s:?}: {m}"));
            }
        };
        if o.end != "done" {
            return viol(case, &o.acts, end_class(&o.end), o.end.clone());
        }
        let mut sig = o.hash;
        for (i, t) in threads.iter().enumerate() {
            for (j, s) in t.iter().enumerate() {
                let name = || format!("thread {i}, step {j}: {} of {} (mode {}, spec {}, width {}, precision {}) into a sink \"{}\" failing at byte {:?} / call {:?} ({}{})", s.what, s.n, s.mode, s.spec, s.w, s.p, s.sink, s.at, s.call, s.kind, if s.once { ", once" } else { "" });
                let full = match &full[i][j] {
                    Got::Val(v) => v,
                    Got::Panic(p) => return viol(case, &o.acts, "panic", format!("{}: panicked even with a healthy sink: {p}", name())),
                    Got::Never => return Err("step missing".into()),
                };
                let g = match &o.res[i][j] {
                    Got::Val(v) => v,
                    // std's answer to an error that does not come from the stream: the
                    // formatter's own error for a country code the database lacks
                    Got::Panic(p) if !full.ok && p.contains("a formatting trait implementation returned an error") => {
                        w.probe("unknown country code into an io sink", 1);
                        continue;
                    }
                    Got::Panic(p) => return viol(case, &o.acts, "panic", format!("{}: panicked: {p}", name())),
                    Got::Never => return Err("step missing".into()),
                };
                if !w.mute {
                    w.probe(if g.ok { "formatted completely" } else if full.ok { "failure reported" } else { "unknown country code" }, 1);
                    w.probe("failed once and went on", (g.failed > 0 && g.ok) as u64);
                }
                sig = mix2(sig, mix2(g.calls * 8 + g.ok as u64, hash_str(&g.got) ^ g.failed));
                if g.ok {
                    if !full.ok {
                        return viol(case, &o.acts, "false-success", format!("{}: reported success, but a healthy sink gets {:?} and an error", name(), full.got));
                    }
                    if g.got != full.got {
                        return viol(case, &o.acts, "lost-text", format!("{}: reported success, the sink accepted {:?} of {:?}", name(), g.got, full.got));
                    }
                } else {
                    // a character may be cut in two by a byte sink: compare the bytes kept
                    let got = g.got.trim_end_matches('\u{fffd}');
                    if !full.got.starts_with(got) {
                        return viol(case, &o.acts, "not-a-prefix", format!("{}: the sink accepted {:?}, which is no prefix of {:?}", name(), g.got, full.got));
                    }
                    if full.ok && g.failed == 0 {
                        return viol(case, &o.acts, "false-failure", format!("{}: reported \"{}\", but the sink never failed", name(), g.err));
                    }
                }
            }
        }
        // what a healthy sink gets is what the call returns as a string in a fresh process
        for (i, t) in threads.iter().enumerate() {
            for (j, s) in t.iter().enumerate() {
                if let Got::Val(f) = &full[i][j] {
                    let skip = f.got.is_empty() && f.calls == 0 || !f.ok;
                    if let Some(m) = (if skip { None } else { complete(s, &f.got) }) {
                        return viol(case, &o.acts, "incomplete-text", format!("{} mode {}: reported success, a healthy sink got {:?}, which {m}", s.n, s.mode, f.got));
                    }
                }
                if s.spec != 0 || s.what != "format" || mix2(s.seed, 5) % 4 != 0 {
                    continue;
                }
                let r = w.reference(&Op::Format { db: s.db, n: s.n.clone(), mode: s.mode }, &dbs, &[]).text;
                if let Got::Val(f) = &full[i][j] {
                    let t = if f.ok { f.got.clone() } else { format!("fmt::Error after {:?}", f.got) };
                    if t != r {
                        return viol(case, &o.acts, "lost-text", format!("{} mode {}: a healthy sink got {t:?}, alone in a process: {r:?}", s.n, s.mode));
                    }
                }
            }
        }
        if !w.mute {
            w.seen(sig, true);
        }
        Ok(None)
    }
    fn rule(&self) -> &'static str {
        "case = 1-3 threads x 4-30 formattings of parsed or assembled numbers (all modes, own formats, Display of number, national part, extension, carrier; padding, precision and other flags) into fmt and io sinks, buffered ones and fixed slices, that are slow, interrupt, accept parts, and fail once or for good at a drawn byte or call. Distinct = distinct schedule, accepted text and call sequence; every case is non-trivial"
    }
    fn real(&self) -> &'static str {
        "phonenumber formatter, Display impls, regex replacement (instrumented build of /repo), std fmt/io adapters"
    }
    fn stub(&self) -> &'static str {
        "the innermost sink; scheduler, clock, heap placement, entropy, environment"
    }
}
