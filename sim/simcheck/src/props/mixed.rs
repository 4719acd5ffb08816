//! C14: a store shared over time by this library and by programs built on the
//! earlier release, with crashes, upgrades and downgrades.
use super::common::*;
use super::sink;
use super::*;
use crate::worker::*;
use ops::old::{NewRow, Number, OldRow, Row};
use ops::phonenumber::PhoneNumber;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::hash::{Hash, Hasher};

pub struct Mixed;

/// Formats 0..9 hold the number alone, 16..20 a row.
const ROW: u8 = 16;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Src {
    hint: Option<String>,
    s: String,
    json: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum What {
    /// store this number
    Create { src: usize, fmt: u8 },
    /// read record `rec`, and store it again in this format
    Rewrite { rec: usize, fmt: u8 },
    /// read it
    Read { rec: usize },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Gen {
    /// a program built on the earlier release
    old: bool,
    threads: Vec<Vec<What>>,
    /// what the store does to records meanwhile: (record, seed)
    massage: Vec<(usize, u64)>,
    /// after how many 1/1000 of the bytes written it is killed (above 1000: not)
    crash: u64,
}

/// A version of a record.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Rec {
    fmt: u8,
    bytes: Vec<u8>,
    /// what it holds
    show: String,
    /// kind and region, for rows
    extra: String,
    uses: Option<String>,
    by: String,
    torn: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Done {
    /// what was read
    refused: Option<String>,
    show: String,
    extra: String,
    uses: String,
    hash: u64,
    /// what was stored
    fmt: u8,
    bytes: Option<Vec<u8>>,
}

struct Ctx {
    world: World,
    srcs: Vec<Src>,
    recs: Vec<(u8, Vec<u8>)>,
    threads: Vec<Vec<What>>,
}

fn show(n: &PhoneNumber) -> String {
    let _q = sched::quiet();
    format!(
        "+{} by {:?}, {} with {} zeros, ext {:?}, carrier {:?}",
        n.code().value(),
        n.code().source(),
        n.national().value(),
        n.national().zeros(),
        n.extension().map(|e| e.to_string()),
        n.carrier().map(|c| c.to_string())
    )
}
fn fmt_name(f: u8) -> String {
    if f >= ROW {
        format!("row as {}", ops::FMT_NAMES[(f - ROW) as usize])
    } else {
        ops::FMT_NAMES[f as usize].to_string()
    }
}

/// This library reads.
fn read_new(bytes: &[u8], fmt: u8) -> Result<(PhoneNumber, String), String> {
    if fmt >= ROW {
        let r: NewRow = ops::decode_as(bytes, fmt - ROW)?;
        let _q = sched::quiet();
        let same = r.also.iter().all(|n| *n == r.number && show(n) == show(&r.number));
        let e = format!("{} {:?} {:?} {} {same}", r.name, r.kind, r.region, r.also.len());
        return Ok((r.number, e));
    }
    Ok((ops::decode_as(bytes, fmt)?, String::new()))
}
fn write_new(n: &PhoneNumber, fmt: u8) -> Result<Vec<u8>, String> {
    if fmt >= ROW {
        let r: NewRow = Row { name: "someone".into(), kind: n.number_type(), region: n.country().id().unwrap_or(None), also: vec![n.clone(); 2], number: n.clone() };
        return ops::encode(&r, fmt - ROW);
    }
    ops::encode(n, fmt)
}
/// The earlier release reads.
fn read_old(bytes: &[u8], fmt: u8) -> Result<(Number, String, Option<OldRow>), String> {
    if fmt >= ROW {
        let r: OldRow = ops::decode_as(bytes, fmt - ROW)?;
        let same = r.also.iter().all(|n| *n == r.number);
        let e = format!("{} {:?} {:?} {} {same}", r.name, r.kind, r.region, r.also.len());
        return Ok((r.number.clone(), e, Some(r)));
    }
    Ok((ops::decode_as(bytes, fmt)?, String::new(), None))
}

fn body(c: &'static Ctx, t: usize, j: usize) -> Done {
    let mut d = Done::default();
    let n = match &c.threads[t][j] {
        What::Create { src, fmt } => {
            d.fmt = *fmt;
            let s = &c.srcs[*src];
            match &s.json {
                Some(j) => Some(ops::number(j)),
                None => ops::parse(&c.world, 0, ops::hint(&s.hint), &s.s).ok(),
            }
        }
        What::Rewrite { rec, .. } | What::Read { rec } => {
            let (f, b) = &c.recs[*rec];
            match read_new(b, *f) {
                Ok((n, e)) => {
                    d.extra = e;
                    Some(n)
                }
                Err(e) => {
                    d.refused = Some(e);
                    None
                }
            }
        }
    };
    if let What::Rewrite { fmt, .. } = &c.threads[t][j] {
        d.fmt = *fmt;
    }
    let Some(n) = n else { return d };
    d.show = show(&n);
    if !matches!(c.threads[t][j], What::Read { .. }) {
        match write_new(&n, d.fmt) {
            Ok(b) => d.bytes = Some(b),
            Err(e) => d.refused = Some(format!("(storing) {e}")),
        }
    }
    let u = ops::use_number(&c.world, 0, &n);
    let x = ops::text(&n);
    let _q = sched::quiet();
    d.uses = format!("{u} {x}");
    let mut h = ops::Fnv(1);
    n.hash(&mut h);
    d.hash = h.finish();
    d
}

// ---- what stores do to records they understand ---------------------------------------------

fn write_json(v: &Value, r: &mut Rng, style: u64, out: &mut String) {
    let gap = |r: &mut Rng, out: &mut String| {
        if style & 1 != 0 && r.chance(1, 3) {
            out.push_str(*r.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
        }
    };
    let text = |s: &str, r: &mut Rng, out: &mut String| {
        out.push('"');
        for c in s.chars() {
            if (style & 2 != 0 && r.chance(1, 3)) || c == '"' || c == '\\' || (c as u32) < 32 {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{u:04x}"));
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
    };
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut k: Vec<(&String, &Value)> = m.iter().filter(|(_, v)| style & 4 == 0 || !v.is_null()).collect();
            r.shuffle(&mut k);
            for (i, (n, v)) in k.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(r, out);
                text(n, r, out);
                gap(r, out);
                out.push(':');
                gap(r, out);
                write_json(v, r, style, out);
                gap(r, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(r, out);
                write_json(v, r, style, out);
            }
            gap(r, out);
            out.push(']');
        }
        Value::String(s) => text(s, r, out),
        v => out.push_str(&v.to_string()),
    }
}
fn shuffle_cbor(v: ciborium::Value, r: &mut Rng, drop_null: bool) -> ciborium::Value {
    use ciborium::Value as V;
    match v {
        V::Map(m) => {
            let mut m: Vec<_> = m.into_iter().filter(|(_, v)| !drop_null || *v != V::Null).map(|(k, v)| (k, shuffle_cbor(v, r, drop_null))).collect();
            r.shuffle(&mut m);
            V::Map(m)
        }
        V::Array(a) => V::Array(a.into_iter().map(|v| shuffle_cbor(v, r, drop_null)).collect()),
        v => v,
    }
}
fn massage(fmt: u8, b: &[u8], seed: u64) -> Option<Vec<u8>> {
    let mut r = Rng::new(seed);
    let style = r.below(8);
    match fmt % ROW {
        0 | 4 | 5 | 6 => {
            let v: Value = serde_json::from_slice(b).ok()?;
            let mut s = String::new();
            write_json(&v, &mut r, style, &mut s);
            Some(s.into_bytes())
        }
        3 | 7 => {
            let v: ciborium::Value = ciborium::from_reader(b).ok()?;
            let mut o = Vec::new();
            ciborium::into_writer(&shuffle_cbor(v, &mut r, style & 4 != 0), &mut o).ok()?;
            Some(o)
        }
        _ => None,
    }
}

fn gen_fmt(r: &mut Rng) -> u8 {
    if r.chance(1, 4) {
        ROW + *r.pick(&[0u8, 1, 2, 3, 4, 5])
    } else {
        r.below(ops::NFMT as u64) as u8
    }
}

impl Prop for Mixed {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let cap = (100 + idx / 2).min(4000);
        let mut srcs = Vec::new();
        for _ in 0..r.range(2, 6) {
            let (s, hint) = super::conc::input(w, r.below(cap));
            if r.chance(1, 2) {
                srcs.push(Src { hint: None, s: String::new(), json: Some(sink::gen_number(w, r, &[])) });
            } else if w.reference(&Op::Json { db: 0, hint: hint.clone(), s: s.clone() }, &[], &[]).text.starts_with('{') {
                srcs.push(Src { hint, s, json: None });
            }
        }
        if srcs.is_empty() {
            return None;
        }
        let ng = r.range(2, 6);
        // records there are before each generation, as far as known beforehand
        let mut n = 0usize;
        let mut gens = Vec::new();
        for g in 0..ng {
            let old = r.chance(1, 2);
            let nt = if old { 1 } else { r.range(1, 2) } as usize;
            let mut threads: Vec<Vec<What>> = vec![Vec::new(); nt];
            let mut made = 0;
            let mut free: Vec<usize> = (0..n).collect();
            r.shuffle(&mut free);
            for _ in 0..r.range(1, 10) {
                let t = r.below(nt as u64) as usize;
                if g == 0 || n == 0 || r.chance(1, 4) {
                    threads[t].push(What::Create { src: r.below(srcs.len() as u64) as usize, fmt: gen_fmt(r) });
                    made += 1;
                } else if let Some(rec) = free.pop() {
                    threads[t].push(if r.chance(2, 3) { What::Rewrite { rec, fmt: gen_fmt(r) } } else { What::Read { rec } });
                }
            }
            n += made;
            let mut m = Vec::new();
            for i in 0..n {
                if r.chance(1, 4) {
                    m.push((i, r.next() & 0xffff_ffff));
                }
            }
            gens.push(Gen { old, threads, massage: m, crash: r.below(1600) });
        }
        let mut plan = super::conc::random_plan(r, 100_000, 2);
        budget(&mut plan, 400_000_000);
        Some(json!({"srcs": srcs, "gens": gens, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let srcs: Vec<Src> = from_case(case, "srcs")?;
        let gens: Vec<Gen> = from_case(case, "gens")?;
        let mut setup = Setup::of(case, 60);
        // numbers the earlier release may make: those told by their parts
        let given: Vec<Option<Number>> = srcs.iter().map(|s| s.json.as_ref().and_then(|j| serde_json::from_str(j).ok())).collect();
        let mut store: Vec<Option<Rec>> = Vec::new();
        let mut sig = 0u64;
        let mut crossed = 0;
        for (g, gen) in gens.iter().enumerate() {
            let by = if gen.old { "the earlier release" } else { "this library" };
            // what each step needs of the store
            let has = |s: &What| match s {
                What::Create { src, .. } => *src < srcs.len() && (!gen.old || given[*src].is_some()),
                What::Rewrite { rec, .. } | What::Read { rec } => matches!(store.get(*rec), Some(Some(_))),
            };
            let threads: Vec<Vec<What>> = gen.threads.iter().map(|t| t.iter().filter(|s| has(s)).cloned().collect()).filter(|t: &Vec<What>| !t.is_empty()).collect();
            // records to be appended, in order: (record or new, it)
            let mut log: Vec<(Option<usize>, Rec)> = Vec::new();
            let mut tell: Vec<(What, Done)> = Vec::new();
            let mut acts = Vec::new();
            if gen.old {
                for s in threads.iter().flatten() {
                    let mut d = Done::default();
                    let (n, row) = match s {
                        What::Create { src, fmt } => {
                            if *fmt >= ROW {
                                continue;
                            }
                            d.fmt = *fmt;
                            (given[*src].clone().unwrap(), None)
                        }
                        What::Rewrite { rec, .. } | What::Read { rec } => {
                            let c = store[*rec].as_ref().unwrap();
                            match read_old(&c.bytes, c.fmt) {
                                Ok((n, e, row)) => {
                                    d.extra = e;
                                    (n, row)
                                }
                                Err(e) => {
                                    d.refused = Some(e);
                                    tell.push((s.clone(), d));
                                    continue;
                                }
                            }
                        }
                    };
                    d.show = n.show();
                    if let What::Rewrite { fmt, .. } = s {
                        d.fmt = *fmt;
                    }
                    if !matches!(s, What::Read { .. }) {
                        d.bytes = match (&row, d.fmt) {
                            (Some(r), f) if f >= ROW => ops::encode(r, f - ROW).ok(),
                            (None, f) if f >= ROW => {
                                // it does not classify; it keeps what it has
                                d.fmt = f % ROW % ops::NFMT;
                                ops::encode(&n, d.fmt).ok()
                            }
                            (_, f) => ops::encode(&n, f).ok(),
                        };
                    }
                    tell.push((s.clone(), d));
                }
            } else if !threads.is_empty() {
                let recs: Vec<(u8, Vec<u8>)> = store.iter().map(|r| r.as_ref().map(|r| (r.fmt, r.bytes.clone())).unwrap_or_default()).collect();
                let steps: Vec<usize> = threads.iter().map(|t| t.len()).collect();
                let out = match simulate(w, &setup, &steps, || Ctx { world: World::default(), srcs: srcs.clone(), recs: recs.clone(), threads: threads.clone() }, body, None::<fn(&'static Ctx)>)? {
                    Sim::Done(o) => o,
                    Sim::Died(c, m, at, acts) => return viol(case, &acts, &c, format!("generation {g}, thread {} step {}: {m}", at.0, at.1)),
                };
                if out.end != "done" {
                    return viol(case, &out.acts, end_class(&out.end), format!("generation {g}: {}", out.end));
                }
                sig = mix2(sig, out.hash);
                for (t, v) in out.res.into_iter().enumerate() {
                    for (j, x) in v.into_iter().enumerate() {
                        match x {
                            Got::Never => return viol(case, &out.acts, "lost", format!("generation {g}: {:?} never returned", threads[t][j])),
                            Got::Panic(m) => return viol(case, &out.acts, "panic", format!("generation {g}: {:?} panicked: {m}", threads[t][j])),
                            Got::Val(d) => tell.push((threads[t][j].clone(), d)),
                        }
                    }
                }
                acts = out.acts;
            }
            for (s, d) in tell {
                sig = mix2(sig, hash_str(&d.show));
                let mut prev: Option<Rec> = None;
                if let What::Rewrite { rec, .. } | What::Read { rec } = &s {
                    let c = store[*rec].clone().unwrap();
                    if c.by != by {
                        crossed += 1;
                        w.probe(&format!("{} read by {by}", if c.by.contains("store") { "reformatted record" } else if gen.old { "record of this library" } else { "record of the earlier release" }), 1);
                    }
                    let here = |m: &str| format!("generation {g}: record {rec} ({}, {}, by {}): {}\n  {m}", fmt_name(c.fmt), if c.torn { "torn" } else { "whole" }, c.by, readable(&c.bytes));
                    if let Some(e) = &d.refused {
                        if c.torn {
                            w.probe("torn record refused", 1);
                            continue;
                        }
                        return viol(case, &acts, if gen.old { "unreadable-after-downgrade" } else { "unreadable-after-upgrade" }, here(&format!("holds {}; {by} refuses it: {e}", c.show)));
                    }
                    if d.show != c.show || (!c.torn && c.fmt >= ROW && d.extra != c.extra) {
                        return viol(case, &acts, "changed", here(&format!("holds {} {}\n  {by} reads {} {}", c.show, c.extra, d.show, d.extra)));
                    }
                    if let (Some(u), false) = (&c.uses, gen.old) {
                        if *u != d.uses {
                            return viol(case, &acts, "behaves-differently", here(&format!("{}\n  before: {u}\n  now:    {}", c.show, d.uses)));
                        }
                    }
                    prev = Some(c);
                } else if d.refused.is_none() && !d.show.is_empty() && !gen.old {
                    if let What::Create { src, .. } = &s {
                        // numbers told by their parts: as the earlier release understands them
                        if let Some(n) = &given[*src] {
                            if n.show() != d.show {
                                return viol(case, &acts, "changed", format!("generation {g}: {} is read as {}", n.show(), d.show));
                            }
                        }
                    }
                }
                if let Some(e) = &d.refused {
                    return viol(case, &acts, "cannot-store", format!("generation {g}: {s:?}: {e}"));
                }
                let Some(b) = d.bytes else { continue };
                let mut n = Rec { fmt: d.fmt, bytes: b, show: d.show.clone(), extra: String::new(), uses: prev.as_ref().and_then(|p| p.uses.clone()), by: by.into(), torn: false };
                if !gen.old {
                    n.uses = Some(d.uses.clone());
                }
                // rows say more; taken down the first time, by whoever did not write it
                if n.fmt >= ROW {
                    n.extra = match read_old(&n.bytes, n.fmt) {
                        Ok((_, e, _)) => e,
                        Err(e) => return viol(case, &acts, "unreadable-after-downgrade", format!("generation {g}: {} stored as {}: {}\n  the earlier release refuses it: {e}", n.show, fmt_name(n.fmt), readable(&n.bytes))),
                    };
                    if let Some(u) = &n.uses {
                        // kind and region, as the number itself tells
                        let mut k = n.extra.split(' ');
                        let _ = k.next();
                        let kind = k.next().unwrap_or("");
                        if !gen.old && !u.contains(&format!(" {kind} ")) {
                            return viol(case, &acts, "changed", format!("generation {g}: {} was classified: {u}\n  stored as {}: {} reads {}", n.show, fmt_name(n.fmt), readable(&n.bytes), n.extra));
                        }
                    }
                } else {
                    match read_old(&n.bytes, n.fmt) {
                        Ok((m, ..)) if m.show() == n.show => {}
                        Ok((m, ..)) => return viol(case, &acts, "changed", format!("generation {g}: {} stored as {}: {}\n  the earlier release reads {}", n.show, fmt_name(n.fmt), readable(&n.bytes), m.show())),
                        Err(e) => return viol(case, &acts, "unreadable-after-downgrade", format!("generation {g}: {} stored as {}: {}\n  the earlier release refuses it: {e}", n.show, fmt_name(n.fmt), readable(&n.bytes))),
                    }
                }
                log.push((if let What::Rewrite { rec, .. } = &s { Some(*rec) } else { None }, n));
            }
            // the process is killed; what was written before stays
            let total: usize = log.iter().map(|x| x.1.bytes.len()).sum();
            let limit = if gen.crash >= 1000 { usize::MAX } else { total * gen.crash as usize / 1000 };
            let mut at = 0;
            for (place, mut n) in log {
                let end = at + n.bytes.len();
                if end > limit {
                    if at < limit {
                        w.fault("torn_record", 1);
                        if place.is_none() {
                            n.bytes.truncate(limit - at);
                            n.torn = true;
                            store.push(Some(n));
                        }
                    } else if place.is_none() {
                        // nobody ever saw it
                        store.push(None);
                    }
                } else {
                    match place {
                        Some(i) => store[i] = Some(n),
                        None => store.push(Some(n)),
                    }
                }
                at = end;
            }
            w.fault("crash_restart", 1);
            for (i, seed) in &gen.massage {
                if let Some(Some(c)) = store.get_mut(*i) {
                    if c.torn {
                        continue;
                    }
                    if let Some(b) = massage(c.fmt, &c.bytes, *seed) {
                        if b != c.bytes {
                            c.bytes = b;
                            w.fault("reformatted", 1);
                            c.by = format!("{}, reformatted by the store", c.by);
                        }
                    }
                }
            }
            setup.env = mix2(setup.env, 1);
            setup.plan.seed = mix2(setup.plan.seed, 1);
        }
        w.probe("generations", gens.len() as u64);
        w.probe("generations of the earlier release", gens.iter().filter(|g| g.old).count() as u64);
        w.seen(sig, crossed > 0);
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["gens", "threads", "massage", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 2-6 generations of processes over one store, each built on this tree or (as a model) on the earlier release; each creates, reads and rewrites up to 10 records in 9 ways of serialising, alone or in rows with type, region and a list, this tree on 1-2 threads; it is killed at a seeded byte of what it writes; in between the store reorders fields, drops absent ones and reformats. Every record must mean the same to whoever reads it. Distinct = distinct event hashes and numbers; non-trivial = some record was read by another than its writer"
    }
    fn real(&self) -> &'static str {
        "the library's serde implementations and everything used on decoded numbers (instrumented build of /repo), serde_json, postcard, bincode, ciborium"
    }
    fn stub(&self) -> &'static str {
        "the earlier release (its record layout, sim/ops/src/old.rs), the store, scheduler, clocks, entropy, environment"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the earlier release's layout is that of the commit this work is based on", "stores keep 64-bit integers exact"]
    }
}

fn readable(b: &[u8]) -> String {
    b.iter().take(160).map(|c| if (32..127).contains(c) { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
}
