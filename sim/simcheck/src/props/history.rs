//! C04: long histories under a moving clock, foreign environments and entropy.
use super::common::*;
use super::*;
use crate::worker::*;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::cell::UnsafeCell;
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct History;

/// One generation of threads.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Gen {
    nt: usize,
    k: usize,
    seed: u64,
    /// of 16 steps: how many repeat a known call; how many fail on purpose
    known: u64,
    fail: u64,
    /// order of the known calls: 0 drawn, 1 in turn, 2 in runs, 3 the first and another in turn
    order: u8,
    /// where the clocks and the environment stand from here on
    real: i64,
    mono: u64,
    envm: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Out {
    /// known call whose result differed: (generation, thread, step, index, result)
    bad: Option<(usize, usize, usize, usize, String)>,
    /// new calls: (seed of the op, hash of the result, hash when called again at the end)
    fresh: Vec<(u64, u64, u64)>,
    nfresh: u64,
    calls: u64,
    hist: u64,
}

/// A number of some territory, of which other subscribers are called: what stands
/// before and after the national number in its description, and the national number.
type Sweep = (String, String, String);

struct Ctx {
    world: World,
    gens: Vec<Gen>,
    known: Vec<Op>,
    hashes: Vec<u64>,
    ins: Vec<(String, Option<String>)>,
    sweep: Vec<Sweep>,
    keep: usize,
    out: UnsafeCell<Out>,
}

struct BadSink(u64, bool);
impl fmt::Write for BadSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if (s.len() as u64) > self.0 {
            if self.1 {
                simrt::shm::stat("sink_panic");
                std::panic::panic_any(7u8);
            }
            simrt::shm::stat("sink_error");
            return Err(fmt::Error);
        }
        self.0 -= s.len() as u64;
        Ok(())
    }
}
struct BadStr;
impl AsRef<str> for BadStr {
    fn as_ref(&self) -> &str {
        simrt::shm::stat("callback_panic");
        std::panic::panic_any(7u8)
    }
}

/// A close relative of an input: what a sloppy cache would take for the same.
pub fn relative(w: &Worker, r: &mut Rng, s: &str, hint: &Option<String>) -> (String, Option<String>) {
    let mut v: Vec<char> = s.chars().collect();
    let mut h = hint.clone();
    let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
    match r.below(14) {
        0 | 1 => h = Some(w.pool.region(r)),
        2 => h = None,
        3 if !d.is_empty() => {
            let i = *r.pick(&d);
            v[i] = (b'0' + r.below(10) as u8) as char;
        }
        4 if d.len() > 1 => {
            let i = r.below(d.len() as u64 - 1) as usize;
            v.swap(d[i], d[i + 1]);
        }
        5 if d.len() > 3 => {
            // another subscriber
            for i in d.iter().rev().take(3) {
                v[*i] = (b'0' + r.below(10) as u8) as char;
            }
        }
        6 if d.len() > 4 => {
            // other leading digits, same tail
            for i in d.iter().take(3) {
                v[*i] = (b'0' + r.below(10) as u8) as char;
            }
        }
        7 => v.push((b'0' + r.below(10) as u8) as char),
        8 => {
            v.pop();
        }
        9 => v.insert(0, *r.pick(&['+', '0', ' ', '('])),
        10 if v.first() == Some(&'+') => {
            v.remove(0);
        }
        11 => v.extend(r.pick(&[" ext. 123", " x7", ";ext=99", "#42"]).chars()),
        12 if v.len() > 3 => {
            let i = r.range(1, v.len() as u64 - 1) as usize;
            v.insert(i, *r.pick(&[' ', '-', '.']));
        }
        _ => {
            // same region, other country code
            let t = r.pick(&w.pool.terrs).clone();
            let u: String = v.iter().filter(|c| c.is_ascii_digit()).collect();
            let keep = u.len().saturating_sub(2).min(8);
            v = format!("+{}{}", t.code, &u[u.len() - keep..]).chars().collect();
        }
    }
    (v.into_iter().collect(), h)
}

/// Another number like this one.
fn swept(r: &mut Rng, (a, z, nat): &Sweep) -> String {
    let mut d: Vec<u8> = nat.bytes().collect();
    let n = d.len();
    let k = if r.chance(1, 4) { n } else { r.range(1, n.min(7) as u64) as usize };
    for b in d[n - k..].iter_mut() {
        *b = b'0' + r.below(10) as u8;
    }
    if r.chance(1, 20) {
        d.pop();
    }
    let zeros = d.iter().take_while(|b| **b == b'0').count() as u64;
    let v = d.iter().fold(0u64, |v, b| v * 10 + (*b - b'0') as u64);
    format!("{a}{}{z}", zeros << 56 | v)
}

fn fresh_op(ins: &[(String, Option<String>)], sweep: &[Sweep], ndb: usize, seed: u64) -> Op {
    let r = &mut Rng::new(seed);
    if !sweep.is_empty() && r.chance(15, 16) {
        let b = if r.chance(1, 3) { &sweep[0] } else { r.pick(&sweep) };
        let n = swept(r, b);
        return match r.below(8) {
            0 => Op::Format { db: 0, n, mode: r.below(4) as u8 },
            1 => Op::Country { n },
            2 | 3 => Op::Valid { db: 0, n },
            _ => Op::Type { db: 0, n },
        };
    }
    let (s, mut hint) = r.pick(ins).clone();
    let s = {
        let mut v: Vec<char> = s.chars().collect();
        let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
        let keep = r.below(4) as usize;
        for i in d.iter().skip(keep) {
            v[*i] = (b'0' + r.below(10) as u8) as char;
        }
        v.into_iter().collect::<String>()
    };
    if r.chance(1, 4) {
        hint = r.pick(ins).1.clone();
    }
    let db = if r.chance(1, 3) { r.below(2 + ndb as u64) as usize } else { 0 };
    match r.below(8) {
        0 => Op::Viable { s },
        1 => Op::FromStr { s },
        2 | 3 => Op::All { db, hint, s },
        _ => Op::Parse { db, hint, s },
    }
}

fn failing(c: &'static Ctx, r: &mut Rng) {
    let (s, hint) = r.pick(&c.ins).clone();
    let h = ops::hint(&hint);
    let x = r.next();
    let at = r.below(14);
    let cdb = r.below(2 + c.world.dbs.len() as u64) as usize;
    let w = &c.world;
    let _ = catch_unwind(AssertUnwindSafe(|| match x % 6 {
        0 => drop(ops::phonenumber::parse(h, BadStr)),
        1 => drop(ops::phonenumber::parse_with(ops::db(w, cdb), h, BadStr)),
        2 => drop(ops::phonenumber::is_viable(BadStr)),
        3 => {
            let g = ["", "+", "12", "tel:", "abc", "+999123456789", "12345678901234567890123", "00", "0000000000000000000000", "é"];
            drop(ops::parse(w, cdb, h, g[(x >> 8) as usize % g.len()]))
        }
        _ => {
            if let Ok(n) = ops::parse(w, cdb, h, &s) {
                let f = n.format_with(ops::db(w, cdb)).mode(ops::mode((x >> 16) as u8));
                let _ = write!(BadSink(at, x & 64 == 0), "{f}");
            }
        }
    }));
}

fn body(c: &'static Ctx, g: usize, t: usize) {
    let q = sched::quiet();
    let gen = &c.gens[g];
    if t >= gen.nt {
        return;
    }
    let mut r = Rng::new(mix2(gen.seed, t as u64));
    drop(q);
    let mut cur = 0usize;
    for j in 0..gen.k {
        let q = sched::quiet();
        let what = r.below(16);
        if what < gen.known && !c.known.is_empty() {
            let n = c.known.len();
            cur = match gen.order {
                0 => r.below(n as u64) as usize,
                1 => (cur + 1) % n,
                2 => {
                    if r.chance(1, 8) {
                        r.below(n as u64) as usize
                    } else {
                        cur % n
                    }
                }
                _ => {
                    if j % 2 == 0 {
                        0
                    } else {
                        r.below(n as u64) as usize
                    }
                }
            };
            let op = &c.known[cur];
            drop(q);
            let s = ops::run_op(&c.world, op);
            let _q = sched::quiet();
            let out = unsafe { &mut *c.out.get() };
            out.calls += 1;
            let h = hash_str(&s);
            out.hist = mix2(out.hist, h);
            if h != c.hashes[cur] && out.bad.is_none() {
                out.bad = Some((g, t, j, cur, s));
            }
        } else if what < gen.known + gen.fail {
            drop(q);
            failing(c, &mut r);
        } else {
            let seed = r.next();
            let op = fresh_op(&c.ins, &c.sweep, c.world.dbs.len(), seed);
            drop(q);
            let s = ops::run_op(&c.world, &op);
            let _q = sched::quiet();
            let out = unsafe { &mut *c.out.get() };
            out.calls += 1;
            let h = hash_str(&s);
            out.hist = mix2(out.hist, h);
            // the first ones and, with falling frequency, later ones
            if out.fresh.len() < c.keep / 2 || (out.fresh.len() < c.keep && r.below(out.calls) < 4) {
                out.fresh.push((seed, h, 0));
            }
        }
    }
}
fn between(c: &'static Ctx, g: usize) {
    if let Some(n) = c.gens.get(g + 1) {
        unsafe {
            let e = &mut simrt::libcshim::ENV;
            e.off_real = n.real;
            e.off_mono = e.off_mono.wrapping_add(n.mono) & ((1 << 60) - 1);
            e.env_mode = n.envm;
        }
        if n.real != 0 {
            simrt::shm::stat("clock_jump");
        }
    }
}
fn finish(c: &'static Ctx) -> Out {
    let out = unsafe { &mut *c.out.get() };
    let mut order: Vec<usize> = (0..out.fresh.len()).collect();
    let mut q = sched::quiet();
    Rng::new(c.gens[0].seed).shuffle(&mut order);
    for i in order {
        let op = fresh_op(&c.ins, &c.sweep, c.world.dbs.len(), out.fresh[i].0);
        drop(q);
        let s = ops::run_op(&c.world, &op);
        q = sched::quiet();
        out.fresh[i].2 = hash_str(&s);
    }
    let mut o = out.clone();
    // those which differ, and some for comparison with a fresh process
    let (bad, good): (Vec<_>, Vec<_>) = o.fresh.iter().partition(|f| f.1 != f.2);
    o.nfresh = o.fresh.len() as u64;
    o.fresh = bad.into_iter().take(4).chain(good.into_iter().take(60)).collect();
    drop(q);
    o
}

impl Prop for History {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let cap = (40 + idx / 4).min(2000);
        let mut dbs = Vec::new();
        let mut docs = Vec::new();
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 2) {
                let mut q = Rng::new(mix2(w.seed ^ 0xdb, r.below(1 + cap / 20)));
                dbs.push(super::conc::custom_db(w, &mut q));
            }
        }
        if r.chance(1, 12) {
            let mut q = Rng::new(mix2(w.seed ^ 0xd0c, r.below(4)));
            docs.push(super::conc::custom_db(w, &mut q));
        }
        let mut ins = super::conc::inputs(w, r, cap);
        let kind = super::conc::kind(r);
        for _ in 0..r.range(1, 5) {
            let (s, h) = r.pick(&ins).clone();
            ins.push(relative(w, r, &s, &h));
        }
        let mut known: Vec<Op> = Vec::new();
        let nk = r.log(2, 40);
        for _ in 0..nk {
            known.push(super::conc::focused_op(w, r, &kind, &ins, &dbs, &docs));
        }
        // the same string under every hint and database
        if r.chance(1, 2) {
            let (s, _) = ins[0].clone();
            for (_, h) in ins.clone() {
                for db in 0..2 + dbs.len() {
                    known.push(if r.chance(1, 2) { Op::Parse { db, hint: h.clone(), s: s.clone() } } else { Op::All { db, hint: h.clone(), s: s.clone() } });
                }
            }
        }
        known.sort();
        known.dedup();
        r.shuffle(&mut known);
        let thorough = w.tier == "thorough";
        let total = match r.below(12) {
            0 => r.log(4_000, if thorough { 70_000 } else { 12_000 }),
            1..=3 => r.log(500, 4_000),
            _ => r.log(20, 500),
        };
        // the complete database makes calls dear
        let total = if w.cfg.codes.is_none() { total / 2 + 1 } else { total };
        // now and then more calls than fit 16 bits, of the cheap kinds
        let marathon = r.chance(1, if thorough { 30 } else { 90 }) && {
            let cheap: Vec<Op> = known.iter().filter(|o| w.reference(o, &dbs, &docs).events < 1_500).cloned().collect();
            if !cheap.is_empty() {
                known = cheap;
            }
            known.iter().all(|o| w.reference(o, &dbs, &docs).events < 1_500)
        };
        let total = if marathon { r.log(66_000, 140_000) } else { total };
        // very many numbers of one territory
        let mut sweep: Vec<Sweep> = Vec::new();
        if !marathon && r.chance(1, 6) {
            let t = w.pool.peculiar(r).clone();
            for _ in 0..r.range(1, 6) {
                let s = format!("+{}{}", t.code, if t.examples.is_empty() { w.pool.national(r, &t) } else { r.pick(&t.examples).clone() });
                let n = w.reference(&Op::Json { db: 0, hint: None, s }, &dbs, &docs).text;
                let Ok(v) = serde_json::from_str::<Value>(&n) else { continue };
                let Some(nat) = v["national"]["value"].as_u64() else { continue };
                let part = format!("\"value\":{nat}");
                let Some(at) = n.rfind(&part) else { continue };
                let zeros = (nat >> 56) as usize;
                let digits = format!("{}{}", "0".repeat(zeros.min(10)), nat & ((1 << 56) - 1));
                sweep.push((n[..at + 8].to_string(), n[at + part.len()..].to_string(), digits));
            }
            known.truncate(6);
        }
        let swept = !sweep.is_empty();
        let total = if swept { r.log(2_000, if thorough { 120_000 } else { 30_000 }) } else { total };
        let heavy = !swept && known.iter().any(|o| matches!(o, Op::Load { .. } | Op::Digest { .. }));
        let total = if heavy { total.min(200) } else { total };
        let ng = if marathon { r.range(1, 3) } else { r.log(1, total.min(200)).max(1) };
        let nt = if marathon || swept || r.chance(1, 2) { 1 } else { r.range(2, 4) } as usize;
        let k = (total / ng / nt as u64).max(1) as usize;
        let moving = r.chance(3, 4);
        let base_known = if marathon { 16 } else if swept { 0 } else { *r.pick(&[2u64, 6, 10, 14, 16]) };
        let order = r.below(4) as u8;
        let gens: Vec<Gen> = (0..ng)
            .map(|_| Gen {
                nt: if r.chance(3, 4) { nt } else { 1 },
                k,
                seed: r.next() & 0xffff_ffff,
                known: if marathon || swept || r.chance(3, 4) { base_known } else { *r.pick(&[0, 8, 16]) },
                fail: if swept { r.below(12) / 11 } else { r.below(4) },
                order,
                real: if moving { *r.pick(&[0i64, 1, -1, 3_600, -86_400, 31_536_000, -1_000_000_000, 2_000_000_000]) * 1_000_000_000 } else { 0 },
                mono: if moving { r.log(1, 1 << 55) } else { 0 },
                envm: if moving { r.below(3) as u8 } else { 0 },
            })
            .collect();
        let mut plan = super::conc::random_plan(r, 5_000 * (nt * k) as u64, nt);
        if nt == 1 || total > 4000 {
            plan = serial_plan();
            plan.seed = r.next();
        }
        budget(&mut plan, 4_000_000_000);
        Some(json!({"dbs": dbs, "docs": docs, "known": known, "ins": ins, "gens": gens, "sweep": sweep, "keep": if swept { 60_000 } else { r.log(4, 2_000) }, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = from_case(case, "dbs")?;
        let docs: Vec<String> = from_case(case, "docs")?;
        let known: Vec<Op> = from_case(case, "known")?;
        let ins: Vec<(String, Option<String>)> = from_case(case, "ins")?;
        let sweep: Vec<Sweep> = from_case(case, "sweep")?;
        let gens: Vec<Gen> = from_case(case, "gens")?;
        let keep = case["keep"].as_u64().unwrap_or(8) as usize;
        if gens.is_empty() || ins.is_empty() {
            return Ok(None);
        }
        let texts: Vec<String> = known.iter().map(|o| w.reference(o, &dbs, &docs).text).collect();
        let hashes: Vec<u64> = texts.iter().map(|t| hash_str(t)).collect();
        let setup = Setup::of(case, 200);
        let nt = gens.iter().map(|g| g.nt).max().unwrap_or(1);
        let r = generations(
            w,
            &setup,
            gens.len(),
            nt,
            || Ctx { world: build_world(&dbs, &docs), gens: gens.clone(), known: known.clone(), hashes: hashes.clone(), ins: ins.clone(), sweep: sweep.clone(), keep, out: UnsafeCell::new(Out::default()) },
            body,
            between,
            finish,
        )?;
        let out = match r {
            Gens::Done(o) => o,
            Gens::Bad(c, m, g) => return Ok(Some(Violation::new(&c, format!("generation {g}: {m}")))),
        };
        w.probe("calls in histories", out.calls);
        w.probe("new calls repeated at the end", out.nfresh);
        if !sweep.is_empty() {
            w.probe("calls in sweeps over one territory", out.calls);
        }
        let mut b = 1u64;
        while b * 4 <= out.calls {
            b *= 4;
        }
        w.probe(&format!("histories of at least {b} calls"), 1);
        w.seen(mix2(out.hist, setup.env), out.calls > 1);
        if let Some((g, t, j, i, got)) = out.bad {
            return Ok(Some(Violation::new("depends-on-history", format!("generation {g}, thread {t}, step {j}, {:?}\n  alone: {}\n  here:  {}", known[i], clip(&texts[i], 400), clip(&got, 400)))));
        }
        let describe = |seed: u64| fresh_op(&ins, &sweep, dbs.len(), seed);
        for (s, a, b) in &out.fresh {
            if a != b {
                return Ok(Some(Violation::new("repeat-differs", format!("{:?} returned something else when called again at the end of the history", describe(*s)))));
            }
        }
        let mut q = Rng::new(setup.env);
        for _ in 0..6.min(out.fresh.len()) {
            let (s, a, _) = *q.pick(&out.fresh);
            let op = describe(s);
            let t = w.reference(&op, &dbs, &docs).text;
            w.probe("new calls compared with a fresh process", 1);
            if hash_str(&t) != a {
                return Ok(Some(Violation::new("depends-on-history", format!("{op:?}, called once in the history\n  alone: {}", clip(&t, 400)))));
            }
        }
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["gens", "known", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = a history of 20 to 12000 (thorough: 70000; now and then up to 140000) calls by generations of 1-4 threads, made of known calls (one string under many hints and databases, close relatives, all operations), ever-new calls, failing and panicking calls, with clock jumps and environment changes between generations, seeded entropy and heap placement. Known calls are compared every time with the same call alone in a fresh process, new ones with themselves at the end and sampled against a fresh process. Distinct = distinct sequence of results and environment; non-trivial = more than one call"
    }
    fn real(&self) -> &'static str {
        "the whole library (instrumented build of /repo) and its dependencies, std threads"
    }
    fn stub(&self) -> &'static str {
        "scheduler, clocks, entropy, environment variables, process id, allocator placement, sinks"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a result is compared by a 64-bit hash of its full description"]
    }
}
