//! C01, C02, C03: caller threads under the simulated scheduler.
use super::*;
use crate::fork::{self, child, ChildEnd};
use crate::pool::{exchange, vary};
use crate::worker::*;
use crate::xml;
use ops::{Op, World};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched::{self, End, Plan};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq)]
pub enum Conc {
    C01,
    C02,
    C03,
}

/// Input number `i` of this zygote; four in a row are a family.
pub fn input(w: &Worker, i: u64) -> (String, Option<String>) {
    let mut r = Rng::new(mix2(w.seed ^ 0x1717, i / 4));
    w.pool.family(&mut r).swap_remove(i as usize % 4)
}

/// One to four inputs below `cap`, often of one family.
pub fn inputs(w: &Worker, r: &mut Rng, cap: u64) -> Vec<(String, Option<String>)> {
    if r.chance(1, 2) {
        let f = r.below(cap) / 4 * 4;
        let mut m: Vec<u64> = (f..f + 4).collect();
        for _ in 0..r.below(3) {
            let i = r.below(m.len() as u64) as usize;
            m.swap_remove(i);
        }
        return m.into_iter().map(|i| input(w, i)).collect();
    }
    (0..r.range(1, 4)).map(|_| input(w, r.below(cap))).collect()
}

/// What all threads do, if they all do the same kind of thing.
pub type Kind = Option<(u64, u64, Option<usize>)>;
pub fn kind(r: &mut Rng) -> Kind {
    if !r.chance(2, 5) {
        return None;
    }
    let k = *r.pick(&[0u64, 0, 6, 6, 12, 15, 15, 15, 15]);
    let j = if r.chance(1, 2) { 0 } else { r.below(crate::pool::NUMBER_OPS) };
    Some((k, j, if r.chance(2, 3) { Some(0) } else { None }))
}

pub fn custom_db(w: &Worker, r: &mut Rng) -> String {
    let n = *r.pick(&[1, 1, 2, 3]);
    let slim = r.chance(3, 4);
    let mut texts = Vec::new();
    let mut ids = Vec::new();
    for _ in 0..n {
        let t = r.pick(&w.pool.terrs).clone();
        // all regions sharing the code, so that by_code stays meaningful; bounded
        if ids.contains(&t.code) {
            continue;
        }
        ids.push(t.code);
        let mut k = 0;
        for x in xml::terrs().iter().filter(|x| x.code == t.code) {
            if k < 3 || x.id == t.id {
                let t = if slim { crate::pool::slim(r, &x.text) } else { x.text.clone() };
                texts.push(if r.chance(2, 3) { vary(r, &t) } else { t });
            }
            k += 1;
        }
    }
    if r.chance(1, 5) {
        exchange(r, &mut texts);
    }
    xml::doc(&texts)
}

/// An op on one of the given inputs.
pub fn focused_op(w: &mut Worker, r: &mut Rng, kind: &Kind, ins: &[(String, Option<String>)], dbs: &[String], docs: &[String]) -> Op {
    let (s, hint) = r.pick(ins).clone();
    let db = if let Some((_, _, Some(d))) = kind {
        *d
    } else if dbs.is_empty() || r.chance(1, 2) { r.below(2) as usize } else { 2 + r.below(dbs.len() as u64) as usize };
    let hint = match r.below(8) {
        0 => None,
        1 => Some(w.pool.region(r)),
        _ => hint,
    };
    let k = match kind {
        Some((k, ..)) if r.chance(9, 10) => *k,
        _ => r.below(20),
    };
    match k {
        0..=5 => Op::All { db, hint, s },
        6..=9 => Op::Parse { db, hint, s },
        10 => Op::FromStr { s },
        11 => Op::Viable { s },
        12 => w.pool.op_plain(r, db),
        13 if !docs.is_empty() => Op::Load { doc: r.below(docs.len() as u64) as usize },
        13 | 14 => {
            if w.cfg.codes.is_some() && r.chance(1, 10) {
                Op::Digest { db }
            } else {
                Op::ById { db, id: w.pool.region(r) }
            }
        }
        _ => {
            let jdb = if db >= 2 && r.chance(1, 2) { db } else { 0 };
            let n = w.reference(&Op::Json { db: jdb, hint: hint.clone(), s: s.clone() }, dbs, docs).text;
            if n.is_empty() || !n.starts_with('{') {
                return Op::Parse { db, hint, s };
            }
            let other = {
                let (s2, h2) = r.pick(ins).clone();
                let m = w.reference(&Op::Json { db: 0, hint: h2, s: s2 }, dbs, docs).text;
                if m.starts_with('{') {
                    m
                } else {
                    n.clone()
                }
            };
            let k = match kind {
                Some((_, j, _)) => *j,
                None => r.below(crate::pool::NUMBER_OPS),
            };
            w.pool.op_number_kind(r, k, db, n, &other)
        }
    }
}

pub fn random_plan(r: &mut Rng, est: u64, nthreads: usize) -> Plan {
    let mut p = Plan { seed: r.next(), ..Default::default() };
    match r.below(26) {
        0..=6 => {
            p.policy = 1;
            let hot = r.log(500, 30000) as u32;
            p.p_hot = hot;
            p.p_load = hot / *r.pick(&[1u32, 4, 16, 64]);
            p.p_any = if r.chance(1, 3) { r.log(1, 200) as u32 } else { 0 };
        }
        7..=9 => {
            p.policy = 1;
            let any = r.log(8, 4000) as u32;
            p.p_any = any;
            p.p_load = any;
            p.p_hot = any;
        }
        10..=13 => {
            p.policy = 2;
            let d = r.range(1, 5);
            let mut c: Vec<u64> = (0..d).map(|_| r.range(1, est.max(2))).collect();
            c.sort();
            p.changes = c;
        }
        14 | 15 => {
            p.policy = 3;
            p.quantum = r.log(1, (est / nthreads as u64).max(2));
        }
        16 => {
            // run one after the other, in a seeded order
            p.policy = 1;
        }
        k => {
            // whoever touches something shared is put last, for a long while
            p.policy = if k < 24 { 4 } else { 1 };
            p.p_hot = r.log(8, 16384) as u32;
            p.p_load = if r.chance(1, 4) { p.p_hot / 16 } else { 0 };
            if r.chance(1, 2) {
                // only where one part of the shared words is touched
                p.mask = *r.pick(&[3u32, 15, 63]);
                p.sel = r.below(p.mask as u64 + 1) as u32;
                p.p_hot = r.log(512, 40000) as u32;
            }
        }
    }
    p.soft_budget = 6_000_000 + 40 * est;
    p.hard_budget = 2 * p.soft_budget;
    p
}

const GROUP: u64 = 48;

impl Conc {
    fn cold_events(&self, w: &mut Worker) -> u64 {
        let key = "#cold-events".to_string();
        if let Some(r) = w.refs.get(&key) {
            return r.events;
        }
        let (s, _) = input(w, 0);
        let c = child(60, || {
            simrt::libcshim::env_init(0);
            let o = sched::run(
                serial_plan(),
                vec![Box::new(move || {
                    ops::run_op(&World::default(), &Op::All { db: 0, hint: None, s });
                })],
            );
            o.events.to_string()
        });
        let n = match c {
            ChildEnd::Ok(t) => t.parse().unwrap(),
            _ => 100_000,
        };
        w.refs.insert(key, RefRes { text: String::new(), events: n });
        n
    }

    /// One thread suspended at every place it passes in turn, then the others:
    /// the cases of a group are one scene, of which a run without suspension
    /// has told the places.
    fn grouped(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let g = idx / GROUP;
        let key = mix2(w.seed ^ 0x51fe, g);
        if key % 5 > 1 {
            return None;
        }
        if w.group.0 != key {
            w.group = (key, Value::Null);
            let q = &mut Rng::new(mix2(key, 3));
            let mut c = self.scene(w, q, g * GROUP / 6, key % 7 > 1);
            let nt = c["threads"].as_array().map_or(0, |a| a.len()) as u64;
            let v = match plan_from(&c["plan"]).stall {
                Some((v, ..)) => v,
                None => q.range(1, nt) as u16,
            };
            if *self != Conc::C03 && q.chance(1, 2) {
                // somebody else makes the same call
                let u = (v as usize) % nt as usize;
                let o = c["threads"][v as usize - 1][0].clone();
                c["threads"][u][0] = o;
            }
            let mut p = plan_from(&c["plan"]);
            (p.stall, p.first, p.record) = (None, v, v);
            c["plan"] = plan_json(&p);
            w.sites.clear();
            let was = std::mem::replace(&mut w.mute, true);
            let out = self.run(w, &c);
            w.mute = was;
            if let Ok(None) = out {
                w.probe("runs that told the places of a call", 1);
                w.probe("places told", w.sites.len() as u64);
                // shared writes and atomic updates; other shared reads; anything
                let mut tiers: [Vec<u64>; 3] = Default::default();
                for (first, last, class) in &w.sites {
                    let t = &mut tiers[2 - *class as usize];
                    t.push(*first);
                    if last != first {
                        t.push(*last);
                    }
                    if *class == 2 {
                        t.push(last + 1);
                    }
                }
                for t in tiers.iter_mut() {
                    q.shuffle(t);
                    t.truncate(GROUP as usize);
                }
                if !w.sites.is_empty() {
                    w.group.1 = json!({"case": c, "tiers": tiers, "v": v});
                }
            }
        }
        let o = &w.group.1;
        if o.is_null() {
            return None;
        }
        let i = (idx % GROUP) as usize;
        let tiers: [Vec<u64>; 3] = serde_json::from_value(o["tiers"].clone()).ok()?;
        let n = [0, 0, 1, 0, 0, 2][i % 6];
        let t = tiers[n..].iter().chain(tiers[..n].iter()).find(|t| !t.is_empty())?;
        let at = t[i % t.len()];
        let v = o["v"].as_u64()? as u16;
        let mut c = o["case"].clone();
        let old = plan_from(&c["plan"]);
        let nt = c["threads"].as_array()?.len();
        let mut p = random_plan(r, old.soft_budget.saturating_sub(6_000_000) / 40, nt);
        p.first = v;
        p.stall = Some((v, at, false, (*self != Conc::C03) as u8));
        p.p_spurious = old.p_spurious;
        p.patience = *r.pick(&[0, 0, 300, 10_000]);
        c["plan"] = plan_json(&p);
        Some(c)
    }

    fn scene(&self, w: &mut Worker, r: &mut Rng, scen: u64, short: bool) -> Value {
        let q = &mut Rng::new(mix2(w.seed ^ 0x5ce0, scen));
        let cap = (40 + scen).min(2000);
        let mut ins = inputs(w, q, cap);
        let mut kind = kind(q);
        if *self == Conc::C02 {
            // first calls that need much of what is made on first use
            if kind.is_none() && q.chance(1, 2) {
                kind = Some((0, 0, Some(0)));
            }
            for i in ins.iter_mut() {
                if q.chance(1, 3) {
                    i.0.push_str(*q.pick(&[" ext. 12", ";ext=7", " x123", " anexo 4567"]));
                } else if q.chance(1, 8) {
                    let t: String = i.0.chars().rev().enumerate().map(|(k, c)| if k < 7 && c.is_ascii_digit() { *q.pick(&['F', 'l', 'W', 'z']) } else { c }).collect();
                    i.0 = t.chars().rev().collect();
                }
            }
        }
        let mut dbs: Vec<String> = Vec::new();
        let mut docs = Vec::new();
        if *self != Conc::C02 && q.chance(1, 5) {
            for _ in 0..if q.chance(3, 4) { 1 } else { 2 } {
                // a few databases per zygote, so that references repeat
                let mut d = Rng::new(mix2(w.seed ^ 0xdb, q.below(1 + cap / 20)));
                dbs.push(custom_db(w, &mut d));
            }
        }
        if q.chance(1, 10) {
            let mut d = Rng::new(mix2(w.seed ^ 0xd0c, q.below(4)));
            docs.push(custom_db(w, &mut d));
        }
        // now and then a crowd
        let crowd = q.chance(1, 16);
        let nt = if crowd { q.range(6, 20) } else { q.range(2, 5) } as usize;
        let maxops = if crowd { 1 } else if *self == Conc::C02 { 2 } else { 4 };
        // now and then the others go on for long
        let repeat = if *self == Conc::C03 && !crowd && q.chance(1, 8) { q.log(4, 60) as usize } else { 1 };
        let mut threads: Vec<Vec<Op>> = Vec::new();
        // often every thread does much the same
        let same = if q.chance(1 + (*self == Conc::C02) as u64, 4) { Some(focused_op(w, q, &kind, &ins, &dbs, &docs)) } else { None };
        for _ in 0..nt {
            let k = q.range(1, maxops);
            let mut v = Vec::new();
            for _ in 0..k {
                v.push(match &same {
                    Some(o) if q.chance(2, 3) => o.clone(),
                    _ => focused_op(w, q, &kind, &ins, &dbs, &docs),
                });
            }
            if *self == Conc::C02 {
                v.push(Op::Address);
                if w.cfg.codes.is_some() && q.chance(1, 6) {
                    v.push(Op::Digest { db: 0 });
                }
            }
            if repeat > 1 {
                let once = v.clone();
                for _ in 1..repeat {
                    v.extend(once.iter().cloned());
                }
            }
            threads.push(v);
        }
        if short {
            for t in threads.iter_mut() {
                let k = t.iter().position(|o| *o == Op::Address).unwrap_or(t.len());
                t.drain(1..k);
            }
        }
        let mut est = 0;
        let mut per = Vec::new();
        for t in &threads {
            let mut e = 0;
            for o in t {
                e += w.reference(o, &dbs, &docs).events;
            }
            per.push(e);
            est += e;
        }
        if *self == Conc::C02 {
            est += self.cold_events(w);
        }
        let mut plan = random_plan(r, est, nt);
        let mut warm: Vec<Op> = Vec::new();
        let mut history: Vec<Op> = Vec::new();
        match self {
            Conc::C01 => {
                if r.chance(2, 3) {
                    warm = threads.iter().flatten().cloned().collect();
                    warm.sort();
                    warm.dedup();
                    if r.chance(1, 3) {
                        let keep = r.below(warm.len() as u64 + 1) as usize;
                        warm.truncate(keep);
                    }
                }
                if r.chance(1, 12) {
                    let n = r.log(4, 1500);
                    for i in 0..n {
                        let (s, hint) = input(w, 100_000 + i);
                        history.push(Op::Parse { db: 0, hint, s });
                    }
                }
            }
            Conc::C02 => {
                if r.chance(1, 2) {
                    plan.stall = Some((r.range(1, nt as u64) as u16, if r.chance(1, 2) { r.log(1, est) } else { r.range(1, est) }, false, 1));
                    if r.chance(1, 3) {
                        plan.stall = Some((r.range(1, nt as u64) as u16, r.log(1, 400), true, 1));
                    }
                }
                plan.patience = *r.pick(&[0, 0, 300, 10_000]);
                if r.chance(1, 3) {
                    plan.p_spurious = r.range(3000, 50000) as u32;
                }
            }
            Conc::C03 => {
                let v = r.range(1, nt as u64) as usize;
                // the others may meet what nobody has asked for before
                let all = r.chance(1, 2);
                warm = threads.iter().enumerate().filter(|(i, _)| all || i + 1 == v).flat_map(|(_, t)| t.iter().cloned()).collect();
                warm.sort();
                warm.dedup();
                per[v - 1] /= repeat as u64;
                if r.chance(1, 2) {
                    plan.stall = Some((v as u16, r.range(1, per[v - 1].max(1)), false, 0));
                } else {
                    plan.stall = Some((v as u16, r.log(1, (per[v - 1] / 12).max(2)), true, 0));
                }
            }
        }
        json!({
            "dbs": dbs, "docs": docs, "warm": warm, "history": history,
            "threads": threads, "plan": plan_json(&plan),
            "env": r.next() & 0xffff_ffff, "heap": r.below(6),
        })
    }
}

impl Prop for Conc {
    fn id(&self) -> &'static str {
        match self {
            Conc::C01 => "C01",
            Conc::C02 => "C02",
            Conc::C03 => "C03",
        }
    }
    fn cfg(&self, r: &mut Rng, k: usize, round: usize) -> Cfg {
        default_cfg(r, k, round, *self == Conc::C02)
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        if let Some(c) = self.grouped(w, r, idx) {
            return Some(c);
        }
        // the same calls several times over, under different schedules
        Some(self.scene(w, r, idx / 6, false))
    }

    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = serde_json::from_value(case["dbs"].clone()).map_err(|e| e.to_string())?;
        let docs: Vec<String> = serde_json::from_value(case["docs"].clone()).map_err(|e| e.to_string())?;
        let warm: Vec<Op> = serde_json::from_value(case["warm"].clone()).map_err(|e| e.to_string())?;
        let history: Vec<Op> = serde_json::from_value(case["history"].clone()).map_err(|e| e.to_string())?;
        let threads: Vec<Vec<Op>> = serde_json::from_value(case["threads"].clone()).map_err(|e| e.to_string())?;
        let plan = plan_from(&case["plan"]);
        if threads.is_empty() || threads.iter().all(|t| t.is_empty()) {
            return Ok(None);
        }
        let mut refs: Vec<Vec<String>> = Vec::new();
        for t in &threads {
            refs.push(t.iter().map(|o| w.reference(o, &dbs, &docs).text).collect());
        }
        let me = *self;
        let limit = 60;
        let t2 = threads.clone();
        let (db2, doc2) = (dbs.clone(), docs.clone());
        let env = case["env"].as_u64().unwrap_or(0);
        let heap = case["heap"].as_u64().unwrap_or(0) as u8;
        let stalls = plan.stall.is_some();
        let policy = plan.policy;
        let c = child(limit, move || {
            simrt::alloc::MODE.store(heap, Ordering::Relaxed);
            simrt::libcshim::env_init(env);
            let world: &'static World = Box::leak(Box::new(build_world(&db2, &doc2)));
            for o in warm.iter().chain(history.iter()) {
                ops::run_op(world, o);
            }
            let n = t2.len();
            let res: &'static mut Vec<Vec<Option<String>>> = Box::leak(Box::new(t2.iter().map(|t| vec![None; t.len()]).collect()));
            let base = res.as_mut_ptr() as usize;
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
            for (i, t) in t2.iter().enumerate() {
                let t = t.clone();
                bodies.push(Box::new(move || {
                    for (j, o) in t.iter().enumerate() {
                        let r = ops::run_op(world, o);
                        let _q = sched::quiet();
                        unsafe { (&mut (*(base as *mut Vec<Option<String>>).add(i)))[j] = Some(r) };
                    }
                }));
            }
            let o = sched::run(plan, bodies);
            let sites: Vec<(u64, u64, u8)> = sched::sites().iter().map(|s| (s.first, s.last, s.class)).collect();
            // later calls are served as before
            let mut post: Vec<(usize, usize, String)> = Vec::new();
            let mut post_end = End::Done;
            if o.end == End::Done && (me != Conc::C03) {
                let t3 = t2.clone();
                let out: &'static std::sync::Mutex<Vec<(usize, usize, String)>> = Box::leak(Box::new(Default::default()));
                let o2 = sched::run(
                    serial_plan(),
                    vec![Box::new(move || {
                        for (i, t) in t3.iter().enumerate() {
                            for (j, o) in t.iter().enumerate() {
                                if *o == Op::Address {
                                    continue;
                                }
                                let r = ops::run_op(world, o);
                                let _q = sched::quiet();
                                out.lock().unwrap().push((i, j, r));
                            }
                        }
                    })],
                );
                post_end = o2.end;
                post = out.lock().unwrap().clone();
                let sh = simrt::shm::get();
                sh.hash.store(o.hash, Ordering::Relaxed);
            }
            json!({
                "end": end_text(o.end), "hash": o.hash, "per": o.per_thread, "n": n,
                "res": res, "post": post, "post_end": end_text(post_end), "sites": sites, "switches": o.switches, "ns": o.sim_ns,
            })
            .to_string()
        });
        let acts = sched::actions();
        w.absorb();
        let refined = || {
            let mut p = plan_from(&case["plan"]);
            if p.policy == 0 {
                return None;
            }
            p.policy = 0;
            p.script = acts.clone();
            if acts.len() >= simrt::shm::NACT {
                return None;
            }
            let mut c = case.clone();
            c["plan"] = plan_json(&p);
            Some(c)
        };
        let viol = |class: &str, msg: String| {
            let mut v = Violation::new(class, msg);
            v.refined = refined();
            Ok(Some(v))
        };
        let t = match c {
            ChildEnd::Ok(t) => t,
            ChildEnd::Signal(s) => {
                let (cl, m) = fork::signal_class(s);
                return viol(cl, m);
            }
            ChildEnd::Harness(m) => return Err(m),
        };
        let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
        let end = v["end"].as_str().unwrap_or("");
        if v["sites"].as_array().is_some_and(|a| !a.is_empty()) {
            w.sites = serde_json::from_value(v["sites"].clone()).unwrap_or_default();
        }
        if !w.mute {
            w.tot.sim_ns += v["ns"].as_u64().unwrap_or(0);
            let sw = v["switches"].as_u64().unwrap_or(0);
            w.seen(v["hash"].as_u64().unwrap_or(0), sw > threads.len() as u64 || policy == 0);
            if stalls {
                let fired = v["per"].as_array().is_some_and(|a| a.iter().any(|x| x[2] == false));
                w.probe("stalled threads left suspended", fired as u64);
            }
        }
        if end != "done" {
            return viol(if end == "deadlock" { "deadlock" } else { "no-progress" }, format!("{end}; per thread (events, shared events, finished): {}", v["per"]));
        }
        let stalled: Vec<bool> = v["per"].as_array().unwrap().iter().map(|x| x[2] == false).collect();
        let mut addr: Option<String> = None;
        for (i, t) in threads.iter().enumerate() {
            for (j, o) in t.iter().enumerate() {
                let got = v["res"][i][j].as_str();
                let got = match got {
                    None => {
                        if stalled[i] {
                            continue;
                        }
                        return viol("lost", format!("thread {i} op {j} never returned: {o:?}"));
                    }
                    Some(g) => g,
                };
                if *o == Op::Address {
                    match &addr {
                        None => addr = Some(got.to_string()),
                        Some(a) if a == got => {}
                        Some(a) => return viol("two-instances", format!("default database seen at {a} and at {got}")),
                    }
                    continue;
                }
                if got != refs[i][j] {
                    return viol("wrong-result", format!("thread {i} op {j} {o:?}\n  alone:  {}\n  here:   {}", clip(&refs[i][j], 400), clip(got, 400)));
                }
            }
        }
        if v["post_end"] != "done" {
            return viol("stuck-afterwards", format!("later calls: {}", v["post_end"]));
        }
        for p in v["post"].as_array().unwrap() {
            let (i, j) = (p[0].as_u64().unwrap() as usize, p[1].as_u64().unwrap() as usize);
            if p[2].as_str().unwrap() != refs[i][j] {
                return viol("wrong-result-later", format!("repeated after the run, {:?}\n  alone:  {}\n  here:   {}", threads[i][j], clip(&refs[i][j], 400), clip(p[2].as_str().unwrap(), 400)));
            }
        }
        Ok(None)
    }
    fn rule(&self) -> &'static str {
        match self {
            Conc::C01 => "case = 2-5 (now and then up to 20) simulated caller threads with 1-4 operations each on 1-4 inputs, optional custom databases, optional warm-up/history, one seeded schedule (random, shared-access-biased, priority with change points, round robin). Distinct = distinct rolling hash over every (thread, event kind, address) in execution order; non-trivial = the token moved between threads more often than thread ends require",
            Conc::C02 => "case = 2-5 (now and then up to 20) simulated threads making first calls in a cold forked process, seeded schedule, optional suspended initialiser, optional spurious wake-ups. Distinct = distinct rolling hash over every event; non-trivial = more token moves than threads",
            Conc::C03 => "case = tables warmed by the same operations, then one of 2-5 (now and then up to 20) simulated threads is suspended for ever at a seeded event while the others run under a seeded schedule. Distinct = distinct rolling hash over every event; non-trivial = more token moves than threads",
        }
    }
    fn real(&self) -> &'static str {
        "phonenumber (instrumented build of /repo), once_cell (instrumented), regex, nom, quick-xml, postcard, fnv, std and its futex-based locks, real OS threads"
    }
    fn stub(&self) -> &'static str {
        "choice of the running thread, futex wait/wake, clocks, sleeping, entropy, environment, heap placement; the default database is a seeded subset of the bundled document on most workers (built by the real build script), the complete one on the others"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "sequentially consistent memory: compiler- or hardware-level reordering of relaxed atomics is not simulated",
            "preemption happens at instrumented accesses of phonenumber, once_cell and inlined std code; regex internals run atomically",
        ]
    }
}
