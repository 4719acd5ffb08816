//! C05: databases come, move, are overwritten in place and go, on one or several
//! threads; every operation is answered from the database it was given.
use super::common::*;
use super::*;
use crate::worker::*;
use ops::phonenumber::metadata::Database;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::cell::UnsafeCell;
use std::sync::Arc;

pub struct Isolate;

const NSLOT: usize = 4;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// load a document into a slot, over what it holds; 0 in place, 1 in a box of
    /// its own, 2 shared with all threads; through a reader or not
    Load {
        doc: usize,
        slot: usize,
        how: u8,
        reader: bool,
        /// what the slot holds goes first
        #[serde(default)]
        bare: bool,
    },
    /// try to load a document cut short
    LoadCut { doc: usize, at: u64 },
    Clone { from: usize, fh: u8, slot: usize, how: u8 },
    /// exchange two slots: the databases change addresses
    Swap { a: usize, b: usize },
    Drop { slot: usize, how: u8 },
    Use { slot: usize, how: u8, op: usize },
    Default { op: usize },
    /// load, use, drop, all on the stack
    Stack { doc: usize, op: usize },
    /// several at once on the stack
    Pair { a: usize, b: usize, op: usize },
}

struct Private {
    inline: [Option<Database>; NSLOT],
    idoc: [usize; NSLOT],
    boxed: [Option<Box<Database>>; NSLOT],
    bdoc: [usize; NSLOT],
}
struct Ctx {
    docs: Vec<String>,
    ops: Vec<Op>,
    dops: Vec<Op>,
    threads: Vec<Vec<Step>>,
    private: Vec<UnsafeCell<Private>>,
    shared: UnsafeCell<Vec<Option<(usize, Arc<Database>)>>>,
}

/// (document, op, hash, text): document usize::MAX is the default database.
type Got1 = Vec<(usize, usize, u64, String)>;

fn load(c: &Ctx, doc: usize, reader: bool) -> Option<Database> {
    let t = &c.docs[doc % c.docs.len()];
    if reader {
        ops::load_reader(std::io::Cursor::new(t.as_bytes())).ok()
    } else {
        ops::load_str(t).ok()
    }
}

fn use_db(c: &Ctx, doc: usize, d: &Database, op: usize, out: &mut Got1) {
    let w = {
        let _q = sched::quiet();
        World { dbs: vec![], docs: vec![], at: Some(unsafe { &*(d as *const Database) }) }
    };
    let l = if doc == usize::MAX { &c.dops } else { &c.ops };
    let s = ops::run_op(&w, &l[op % l.len()]);
    let _q = sched::quiet();
    out.push((doc, op % c.ops.len(), hash_str(&s), clip(&s, 600)));
}

fn body(c: &'static Ctx, t: usize, j: usize) -> Got1 {
    let mut out = Vec::new();
    let p: &'static mut Private = unsafe { &mut *c.private[t].get() };
    // the shared slots are only touched between events
    let shared = || -> &'static mut Vec<Option<(usize, Arc<Database>)>> { unsafe { &mut *c.shared.get() } };
    let n = c.docs.len();
    let put = |p: &mut Private, slot: usize, how: u8, doc: usize, d: Database| match how {
        0 => {
            // the old one goes first, or is overwritten
            if doc % 2 == 0 {
                p.inline[slot] = None;
            }
            p.inline[slot] = Some(d);
            p.idoc[slot] = doc;
        }
        1 => {
            match &mut p.boxed[slot] {
                Some(b) if doc % 2 == 1 => **b = d,
                b => {
                    *b = None;
                    *b = Some(Box::new(d));
                }
            }
            p.bdoc[slot] = doc;
        }
        _ => {
            let a = Arc::new(d);
            let old = {
                let _q = sched::quiet();
                shared()[slot].replace((doc, a))
            };
            drop(old);
        }
    };
    let failed = |out: &mut Got1, doc: usize| {
        let _q = sched::quiet();
        out.push((doc, usize::MAX, 0, "loading failed".into()));
    };
    match &c.threads[t][j] {
        Step::Load { slot, how: how @ (0 | 1), bare: true, doc, reader } => {
            if *how == 0 {
                p.inline[*slot] = None;
            } else {
                p.boxed[*slot] = None;
            }
            match load(c, *doc, *reader) {
                Some(d) => put(p, *slot, *how, *doc % n, d),
                None => failed(&mut out, *doc % n),
            }
        }
        Step::Load { doc, slot, how, reader, .. } => match load(c, *doc, *reader) {
            Some(d) => put(p, *slot, *how, *doc % n, d),
            None => failed(&mut out, *doc % n),
        },
        Step::LoadCut { doc, at } => {
            let t = &c.docs[*doc % n];
            let mut at = *at as usize % t.len();
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            drop(ops::load_str(&t[..at]));
        }
        Step::Clone { from, fh, slot, how } => {
            let (d, doc) = match fh {
                0 => (p.inline[*from].clone(), p.idoc[*from]),
                1 => (p.boxed[*from].as_deref().cloned(), p.bdoc[*from]),
                _ => {
                    let a = {
                        let _q = sched::quiet();
                        shared()[*from].clone()
                    };
                    match a {
                        Some((doc, a)) => (Some(Database::clone(&a)), doc),
                        None => (None, 0),
                    }
                }
            };
            if let Some(d) = d {
                put(p, *slot, *how, doc, d);
            }
        }
        Step::Swap { a, b } => {
            p.inline.swap(*a, *b);
            p.idoc.swap(*a, *b);
            // and between the stack and the heap
            if let (Some(x), Some(y)) = (&mut p.inline[*a], &mut p.boxed[*b]) {
                std::mem::swap(x, &mut **y);
                std::mem::swap(&mut p.idoc[*a], &mut p.bdoc[*b]);
            }
        }
        Step::Drop { slot, how } => {
            match how {
                0 => p.inline[*slot] = None,
                1 => p.boxed[*slot] = None,
                _ => {
                    let old = {
                        let _q = sched::quiet();
                        shared()[*slot].take()
                    };
                    drop(old);
                }
            }
            simrt::shm::stat("drop_database");
        }
        Step::Use { slot, how, op } => match how {
            0 => {
                if let Some(d) = &p.inline[*slot] {
                    use_db(c, p.idoc[*slot], d, *op, &mut out);
                }
            }
            1 => {
                if let Some(d) = &p.boxed[*slot] {
                    use_db(c, p.bdoc[*slot], d, *op, &mut out);
                }
            }
            _ => {
                let a = {
                    let _q = sched::quiet();
                    shared()[*slot].clone()
                };
                if let Some((doc, a)) = a {
                    use_db(c, doc, &a, *op, &mut out);
                }
            }
        },
        Step::Default { op } => {
            use_db(c, usize::MAX, &ops::phonenumber::metadata::DATABASE, *op, &mut out);
        }
        Step::Stack { doc, op } => match load(c, *doc, false) {
            Some(d) => use_db(c, *doc % n, &d, *op, &mut out),
            None => failed(&mut out, *doc % n),
        },
        Step::Pair { a, b, op } => match (load(c, *a, false), load(c, *b, true)) {
            (Some(x), Some(y)) => {
                use_db(c, *a % n, &x, *op, &mut out);
                use_db(c, *b % n, &y, *op, &mut out);
                drop(x);
                use_db(c, *b % n, &y, *op, &mut out);
            }
            _ => failed(&mut out, *a % n),
        },
    }
    out
}

/// Hundreds of databases come and go while one or a few stay.
fn marathon(w: &mut Worker, r: &mut Rng) -> Option<Value> {
    let terrs: Vec<crate::xml::Terr> = (0..2).map(|_| w.pool.peculiar(r).clone()).collect();
    let texts: Vec<String> = terrs.iter().map(|t| crate::pool::tiny(&t.text)).collect();
    let mut docs = vec![crate::xml::doc(&texts[..1])];
    for d in [crate::xml::doc(&texts[1..]), crate::pool::vary_part(r, &docs[0].clone()), crate::xml::doc(&texts)] {
        if !docs.contains(&d) && (docs.len() < 2 || r.chance(1, 2)) {
            docs.push(d);
        }
    }
    let pool = crate::pool::Pool { terrs, all_ids: w.pool.all_ids.clone() };
    let mut ops: Vec<Op> = Vec::new();
    for (s, hint) in pool.family(r).into_iter().take(r.range(1, 2) as usize) {
        ops.push(match r.below(4) {
            0 | 1 => Op::Parse { db: 2, hint, s },
            2 => Op::All { db: 2, hint, s },
            _ => {
                let n = w.reference(&Op::Json { db: 2, hint: hint.clone(), s: s.clone() }, &docs[..1], &[]).text;
                if n.starts_with('{') {
                    Op::Format { db: 2, n, mode: r.below(4) as u8 }
                } else {
                    Op::Parse { db: 2, hint, s }
                }
            }
        });
    }
    let len = r.log(100, if w.tier == "thorough" { 2400 } else { 600 });
    let how = r.below(2) as u8;
    let (slots, resident) = (r.range(1, NSLOT as u64 - 1), r.chance(2, 3));
    let mut v: Vec<Step> = vec![Step::Load { doc: 0, slot: 0, how, reader: false, bare: false }];
    for i in 0..len {
        let slot = 1 + (i % slots) as usize;
        let op = r.below(ops.len() as u64) as usize;
        let doc = if r.chance(3, 4) { 1 % docs.len() } else { r.below(docs.len() as u64) as usize };
        let bare = r.chance(1, 2);
        v.push(Step::Load { doc, slot, how, reader: false, bare });
        if resident || r.chance(1, 8) {
            v.push(Step::Use { slot: 0, how, op });
        }
        v.push(Step::Use { slot, how, op });
    }
    let mut plan = super::conc::random_plan(r, 60_000 * len, 1);
    budget(&mut plan, 4_000_000_000);
    Some(json!({"docs": docs, "ops": ops, "threads": [v], "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
}

impl Prop for Isolate {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        if idx % 48 == 40 {
            return marathon(w, r);
        }
        // the same documents and calls several times over
        let z = &mut Rng::new(mix2(w.seed ^ 0x5ce5, idx / 4));
        let cap = (20 + idx / 8).min(400);
        // documents about the same territories
        let mut q = Rng::new(mix2(w.seed ^ 0x15_0, z.below(1 + cap / 20)));
        let base = super::conc::custom_db(w, &mut q);
        let mut docs = vec![base.clone()];
        // few documents and one call: what is kept from one load to the next shows
        let narrow = z.chance(1, 3);
        for _ in 0..z.range(1, 3) {
            let d = match z.below(4) {
                0 if !narrow => super::conc::custom_db(w, &mut q),
                1 => crate::pool::vary(&mut q, &docs[docs.len() - 1].clone()),
                2 => crate::pool::vary_part(&mut q, &base),
                _ => crate::pool::vary(&mut q, &base),
            };
            if !docs.contains(&d) {
                docs.push(d);
            }
        }
        // inputs these territories know
        let mut terrs: Vec<crate::xml::Terr> = Vec::new();
        for d in &docs {
            for (i, j) in crate::pool::elements(d, "territory") {
                let t = crate::xml::parse_terr(&d[i..j]);
                if !terrs.iter().any(|u| u.id == t.id && u.code == t.code && u.np == t.np) {
                    terrs.push(t);
                }
            }
        }
        let pool = crate::pool::Pool { terrs, all_ids: w.pool.all_ids.clone() };
        let mut ins = Vec::new();
        while ins.len() < 3 {
            let mut q = Rng::new(mix2(w.seed ^ 0x1517, z.below(cap)));
            let mut f = pool.family(&mut q);
            f.truncate(z.range(1, 4) as usize);
            ins.extend(f);
            if z.chance(1, 2) {
                break;
            }
        }
        let mut ops: Vec<Op> = Vec::new();
        let nops = if narrow { z.range(1, 2) } else { z.range(1, 8) };
        for _ in 0..nops {
            let (s, mut hint) = z.pick(&ins).clone();
            if z.chance(1, 4) {
                hint = Some(pool.region(z));
            }
            ops.push(match z.below(12) {
                0..=3 => Op::All { db: 2, hint, s },
                4..=6 => Op::Parse { db: 2, hint, s },
                7 => Op::ById { db: 2, id: pool.region(z) },
                8 if z.chance(1, 2) => Op::ByCode { db: 2, code: pool.code(z) },
                8 => Op::Region { db: 2, code: pool.code(z) },
                _ => {
                    let n = w.reference(&Op::Json { db: if z.chance(1, 2) { 0 } else { 2 }, hint: hint.clone(), s: s.clone() }, &docs[..1], &[]).text;
                    if n.starts_with('{') {
                        match z.below(8) {
                            0..=2 => Op::Format { db: 2, n, mode: z.below(4) as u8 },
                            3 => Op::Valid { db: 2, n },
                            4 => Op::Type { db: 2, n },
                            5 => Op::Meta { db: 2, n },
                            6 => Op::FormatWith { db: 2, n, mode: z.below(4) as u8, region: pool.region(z), k: z.below(4) as usize },
                            _ => Op::Digest { db: 2 },
                        }
                    } else {
                        Op::Parse { db: 2, hint, s }
                    }
                }
            });
        }
        if w.cfg.codes.is_none() {
            ops.retain(|o| !matches!(o, Op::Digest { .. }));
            if ops.is_empty() {
                ops.push(Op::Region { db: 2, code: 1 });
            }
        }
        let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) } as usize;
        let len = r.log(4, 40) as usize / nt + 2;
        let ns = if narrow || r.chance(1, 2) { 1 } else { NSLOT as u64 };
        let nh = if narrow { 1 } else { *r.pick(&[1u64, 2, 3]) };
        let bias = r.below(3) as u8;
        let mut threads: Vec<Vec<Step>> = Vec::new();
        for _ in 0..nt {
            let mut v: Vec<Step> = Vec::new();
            for _ in 0..len {
                let slot = r.below(ns) as usize;
                let how = if nh == 1 { bias } else { r.below(nh) as u8 };
                let op = r.below(ops.len() as u64) as usize;
                let doc = r.below(docs.len() as u64) as usize;
                v.push(match r.below(if narrow { 28 } else { 20 }) {
                    20..=23 => Step::Load { doc, slot, how, reader: false, bare: true },
                    0..=4 => Step::Load { doc, slot, how, reader: r.chance(1, 4), bare: r.chance(1, 2) },
                    5 => Step::LoadCut { doc, at: r.next() & 0xffffff },
                    6 => Step::Clone { from: r.below(ns) as usize, fh: how, slot, how: r.below(3) as u8 },
                    7 => Step::Swap { a: slot, b: r.below(ns) as usize },
                    8 | 9 => Step::Drop { slot, how },
                    10 | 11 => Step::Default { op },
                    12 => Step::Stack { doc, op },
                    13 => Step::Pair { a: doc, b: r.below(docs.len() as u64) as usize, op },
                    _ => Step::Use { slot, how, op },
                });
                // a load is mostly followed by a use
                if let Some(Step::Load { slot, how, .. }) = v.last().cloned() {
                    if r.chance(3, 4) {
                        v.push(Step::Use { slot, how, op });
                    }
                }
            }
            threads.push(v);
        }
        let mut plan = super::conc::random_plan(r, 60_000 * len as u64, nt);
        budget(&mut plan, 2_000_000_000);
        Some(json!({"docs": docs, "ops": ops, "threads": threads, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": *r.pick(&[0, 1, 3, 4, 4, 5])}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let docs: Vec<String> = from_case(case, "docs")?;
        let ops: Vec<Op> = from_case(case, "ops")?;
        let threads: Vec<Vec<Step>> = from_case(case, "threads")?;
        if docs.is_empty() || ops.is_empty() || threads.is_empty() {
            return Ok(None);
        }
        let setup = Setup::of(case, 60);
        let steps: Vec<usize> = threads.iter().map(|t| t.len()).collect();
        let nt = threads.len();
        let out = match simulate(
            w,
            &setup,
            &steps,
            || Ctx {
                docs: docs.clone(),
                dops: ops.iter().map(as_default).collect(),
                ops: ops.clone(),
                threads: threads.clone(),
                private: (0..nt).map(|_| UnsafeCell::new(Private { inline: [None, None, None, None], idoc: [0; NSLOT], boxed: [None, None, None, None], bdoc: [0; NSLOT] })).collect(),
                shared: UnsafeCell::new(vec![None; NSLOT]),
            },
            body,
            None::<fn(&'static Ctx)>,
        )? {
            Sim::Done(o) => o,
            Sim::Died(c, m, at, acts) => return viol(case, &acts, &c, format!("thread {} step {}: {m}", at.0, at.1)),
        };
        if out.end != "done" {
            return viol(case, &out.acts, end_class(&out.end), out.end.clone());
        }
        let mut uses = 0;
        let mut sig = out.hash;
        for (t, v) in out.res.iter().enumerate() {
            for (j, g) in v.iter().enumerate() {
                let step = &threads[t][j];
                match g {
                    Got::Never => return viol(case, &out.acts, "lost", format!("thread {t} step {j} {step:?} never returned")),
                    Got::Panic(m) => return viol(case, &out.acts, "panic", format!("thread {t} step {j} {step:?} panicked: {m}")),
                    Got::Val(l) => {
                        for (doc, op, h, text) in l {
                            if *op == usize::MAX {
                                // does it load alone?
                                let alone = w.reference(&Op::Load { doc: 0 }, &[], &docs[*doc..=*doc]).text;
                                if !alone.starts_with("Err") {
                                    return viol(case, &out.acts, "load-fails", format!("thread {t} step {j} {step:?}: loading failed; alone it succeeds"));
                                }
                                continue;
                            }
                            uses += 1;
                            sig = mix2(sig, *h);
                            let o = &ops[*op];
                            let want = if *doc == usize::MAX { w.reference(&as_default(o), &[], &[]).text } else { w.reference(o, &docs[*doc..=*doc], &[]).text };
                            if hash_str(&want) != *h {
                                let which = if *doc == usize::MAX { "the default database".to_string() } else { format!("document {doc}") };
                                return viol(case, &out.acts, "wrong-database", format!("thread {t} step {j} {step:?}, {o:?} on {which}\n  alone: {}\n  here:  {}", clip(&want, 500), clip(text, 500)));
                            }
                        }
                    }
                }
            }
        }
        w.probe("operations answered", uses);
        let loads = threads.iter().flatten().filter(|s| matches!(s, Step::Load { .. } | Step::Stack { .. } | Step::Pair { .. } | Step::Clone { .. })).count();
        w.probe("loads and clones", loads as u64);
        w.seen(sig, uses > 1 && loads > 1);
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["threads", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 1-3 threads that load 2-4 documents (mostly variants of one another) into slots in place, in boxes and shared, overwrite, swap, clone and drop them, fail loads in between, and use them and the default database with 1-8 operations; seeded schedule and allocator (address reuse or not); one case in 48 loads 100-600 (thorough: 2400) databases while one stays. Distinct = distinct event hash and results; non-trivial = at least two databases came to be and two operations were answered"
    }
    fn real(&self) -> &'static str {
        "the whole library (instrumented build of /repo) with its xml and regex dependencies, std threads"
    }
    fn stub(&self) -> &'static str {
        "scheduler, allocator placement (reuse of freed addresses), clocks, entropy, environment"
    }
}

fn as_default(o: &Op) -> Op {
    let mut o = o.clone();
    match &mut o {
        Op::Parse { db, .. } | Op::All { db, .. } | Op::Format { db, .. } | Op::FormatWith { db, .. } | Op::Valid { db, .. } | Op::Type { db, .. } | Op::Meta { db, .. } | Op::ById { db, .. } | Op::ByCode { db, .. } | Op::Region { db, .. } | Op::Digest { db } | Op::Json { db, .. } => *db = 1,
        _ => {}
    }
    o
}
