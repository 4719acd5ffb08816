//! C15: requests for memory that fail.
use super::common::*;
use super::*;
use crate::worker::*;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::{alloc, sched};

pub struct Memory;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    op: Op,
    /// 0 none, 1 one request, 2 all from one on, 3 all large ones
    mode: u8,
    left: u64,
    size: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Done {
    text: String,
    refused: u64,
    /// the places its requests came from: the first and the last of each
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    sites: Vec<(u32, u32, u32)>,
}
/// One call of a process met shortages at each of these.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Group {
    dbs: Vec<String>,
    docs: Vec<String>,
    steps: Vec<Step>,
    plan: Value,
    env: u64,
    heap: u64,
    /// (step, request) of each place: those in the library itself, and all
    own: Vec<(usize, u32)>,
    places: Vec<(usize, u32)>,
}
const GROUP: u64 = 24;

struct Ctx {
    world: World,
    threads: Vec<Vec<Step>>,
}

fn body(c: &'static Ctx, t: usize, j: usize) -> Done {
    let s = &c.threads[t][j];
    alloc::scarcity(s.mode, s.left, s.size);
    let text = ops::run_op(&c.world, &s.op);
    let refused = alloc::plenty();
    let _q = sched::quiet();
    let mut sites: Vec<(u32, u32, u32)> = Vec::new();
    if s.mode == alloc::RECORD {
        let mut at = std::collections::HashMap::new();
        for (i, h) in alloc::recorded().iter().enumerate() {
            let k = *at.entry(*h).or_insert_with(|| {
                sites.push((*h, i as u32, 0));
                sites.len() - 1
            });
            sites[k].2 = i as u32;
        }
    }
    Done { text, refused, sites }
}

/// A dozen calls and what they need.
fn calls(w: &mut Worker, scene: u64) -> (Vec<String>, Vec<String>, Vec<Op>) {
    let (mut dbs, mut docs, mut calls) = (Vec::new(), Vec::new(), Vec::new());
    let r = &mut Rng::new(scene);
    if r.chance(1, 4) {
        dbs.push(super::conc::custom_db(w, r));
    }
    if r.chance(1, 4) {
        docs.push(super::conc::custom_db(w, r));
    }
    let mut ins = super::conc::inputs(w, r, 2000);
    if r.chance(1, 4) {
        // long ones need larger pieces of memory
        let (mut s, h) = r.pick(&ins).clone();
        let k = r.log(1, 240) as usize;
        let z = r.pick(&["0", " ", "7", "-", "\u{ff11}", "a", ";x="]);
        let at = if r.chance(1, 2) { s.len() } else { 0 };
        s.insert_str(at, &z.repeat(k));
        ins.push((s, h));
    }
    let kind = super::conc::kind(r);
    for _ in 0..12 {
        calls.push(if !docs.is_empty() && r.chance(1, 3) { Op::Load { doc: 0 } } else { super::conc::focused_op(w, r, &kind, &ins, &dbs, &docs) });
    }
    (dbs, docs, calls)
}

/// Every place from which the calls of a process ask for memory is refused it
/// in turn: half the groups of cases are one process each, of which a run
/// without shortages has told the places.
fn grouped(w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
    let g = idx / GROUP;
    let key = mix2(w.seed ^ 0x6409, g);
    if key % 2 == 0 {
        return None;
    }
    if w.group.0 != key {
        w.group = (key, Value::Null);
        let q = &mut Rng::new(key);
        let (dbs, docs, calls) = calls(w, mix2(key, 1));
        let steps: Vec<Step> = (0..q.range(1, 3)).map(|_| Step { op: q.pick(&calls).clone(), mode: alloc::RECORD, left: 0, size: 0 }).collect();
        let mut plan = serial_plan();
        plan.seed = q.next();
        budget(&mut plan, 2_000_000_000);
        let mut o = Group { dbs, docs, steps, plan: plan_json(&plan), env: q.next() & 0xffff_ffff, heap: q.below(6), own: Vec::new(), places: Vec::new() };
        let case = json!({"plan": o.plan, "env": o.env, "heap": o.heap});
        let was = std::mem::replace(&mut w.mute, true);
        let code = crate::symbols::own_code();
        let out = simulate(
            w,
            &Setup::of(&case, 60),
            &[o.steps.len()],
            || {
                alloc::set_own_code(code);
                Ctx { world: build_world(&o.dbs, &o.docs), threads: vec![o.steps.clone()] }
            },
            body,
            None::<fn(&'static Ctx)>,
        );
        w.mute = was;
        if let Ok(Sim::Done(d)) = out {
            for (j, got) in d.res.into_iter().flatten().enumerate() {
                if let Got::Val(d) = got {
                    for (h, first, last) in d.sites {
                        let k = (j, if h & 1 == 0 { first } else { last });
                        o.places.push(k);
                        if h >> 31 == 1 {
                            o.own.push(k);
                        }
                    }
                }
            }
        }
        for s in o.steps.iter_mut() {
            s.mode = 0;
        }
        q.shuffle(&mut o.places);
        q.shuffle(&mut o.own);
        if !o.places.is_empty() {
            w.group.1 = serde_json::to_value(&o).unwrap();
        }
    }
    if w.group.1.is_null() {
        return None;
    }
    let mut o: Group = serde_json::from_value(w.group.1.clone()).unwrap();
    let of = if o.own.is_empty() || idx % 4 == 0 { &o.places } else { &o.own };
    let (j, k) = of[(idx % GROUP) as usize % of.len()];
    o.steps[j].mode = if r.chance(7, 8) { 1 } else { 2 };
    o.steps[j].left = k as u64;
    Some(json!({"dbs": o.dbs, "docs": o.docs, "threads": [o.steps], "plan": o.plan, "env": o.env, "heap": o.heap}))
}

impl Prop for Memory {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn cfg(&self, r: &mut Rng, k: usize, round: usize) -> Cfg {
        default_cfg(r, k, round, (k + round) % 4 == 3)
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        if let Some(c) = grouped(w, r, idx) {
            return Some(c);
        }
        // a dozen calls, met again and again with other shortages
        let scene = mix2(w.seed ^ 0x5ce, r.below(8 + idx / 24));
        let (dbs, docs, calls) = calls(w, scene);
        let nt = if r.chance(3, 4) { 1 } else { r.range(2, 3) } as usize;
        let mut threads: Vec<Vec<Step>> = Vec::new();
        for _ in 0..nt {
            let k = r.range(1, 5);
            threads.push((0..k).map(|_| Step { op: r.pick(&calls).clone(), mode: 0, left: 0, size: 0 }).collect());
        }
        // most processes meet one shortage
        for _ in 0..if r.chance(3, 4) { 1 } else { r.range(2, 4) } {
            let t = r.below(nt as u64) as usize;
            let n = threads[t].len() as u64;
            let s = &mut threads[t][r.below(n) as usize];
            s.mode = *r.pick(&[1u8, 1, 1, 1, 2, 3]);
            let big = matches!(s.op, Op::Load { .. } | Op::Digest { .. }) || (w.cfg.cold && r.chance(1, 2));
            s.left = if r.chance(1, 2) { r.below(if big { 3_000 } else { 60 }) } else { r.log(1, if big { 60_000 } else { 800 }) - 1 };
            s.size = r.log(1, if big { 100_000 } else { 300 }) as usize;
        }
        let mut plan = super::conc::random_plan(r, 20_000, nt);
        if nt == 1 {
            plan = serial_plan();
        }
        plan.seed = r.next();
        budget(&mut plan, 2_000_000_000);
        Some(json!({"dbs": dbs, "docs": docs, "threads": threads, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = from_case(case, "dbs")?;
        let docs: Vec<String> = from_case(case, "docs")?;
        let threads: Vec<Vec<Step>> = from_case(case, "threads")?;
        if threads.iter().all(|t| t.is_empty()) {
            return Ok(None);
        }
        let mut refs: Vec<Vec<String>> = Vec::new();
        for t in &threads {
            refs.push(t.iter().map(|s| w.reference(&s.op, &dbs, &docs).text).collect());
        }
        let setup = Setup::of(case, 60);
        let steps: Vec<usize> = threads.iter().map(|t| t.len()).collect();
        let out = simulate(w, &setup, &steps, || Ctx { world: build_world(&dbs, &docs), threads: threads.clone() }, body, None::<fn(&'static Ctx)>)?;
        let failed = simrt::shm::stat_of("alloc_failure");
        let base = hash_str(&case["threads"].to_string());
        let o = match out {
            Sim::Died(c, m, at, acts) => {
                if failed > 0 && m.contains("SIGABRT") {
                    // out of memory ends the process, as everywhere in Rust
                    w.probe("processes ended by the failed allocation", 1);
                    w.seen(mix2(base, 1), true);
                    return Ok(None);
                }
                return viol(case, &acts, &c, format!("thread {} step {}: {m} ({failed} allocations had failed)", at.0, at.1));
            }
            Sim::Done(o) => o,
        };
        if o.end != "done" {
            return viol(case, &o.acts, end_class(&o.end), format!("{} ({failed} allocations had failed)", o.end));
        }
        for (t, v) in o.res.iter().enumerate() {
            for (j, g) in v.iter().enumerate() {
                let s = &threads[t][j];
                match g {
                    Got::Never => return viol(case, &o.acts, "lost", format!("{:?} never returned", s.op)),
                    Got::Panic(m) => return viol(case, &o.acts, "panic", format!("{:?} panicked: {m}", s.op)),
                    Got::Val(d) => {
                        if d.refused > 0 {
                            w.probe("operations that went on after a failed allocation", 1);
                        }
                        if d.text == refs[t][j] {
                            continue;
                        }
                        if d.refused > 0 {
                            // told, in one of the ways there are
                            let told = d.text.starts_with("PANIC")
                                || match &s.op {
                                    Op::Load { .. } | Op::Serde { .. } => d.text.starts_with("Err"),
                                    Op::Format { .. } | Op::FormatWith { .. } | Op::Display { .. } => d.text.starts_with(ops::FMT_ERR),
                                    Op::All { .. } => d.text.contains(ops::FMT_ERR),
                                    _ => false,
                                };
                            if told {
                                w.probe("failed allocations reported as errors", 1);
                                continue;
                            }
                            return viol(
                                case,
                                &o.acts,
                                "wrong-out-of-memory",
                                format!("{:?}, of whose allocations {} failed\n  usual: {}\n  here:  {}", s.op, d.refused, clip(&refs[t][j], 400), clip(&d.text, 400)),
                            );
                        }
                        return viol(
                            case,
                            &o.acts,
                            "wrong-afterwards",
                            format!("{:?}, in a process in which {failed} allocations failed elsewhere\n  usual: {}\n  here:  {}", s.op, clip(&refs[t][j], 400), clip(&d.text, 400)),
                        );
                    }
                }
            }
        }
        w.probe(if failed > 0 { "processes that survived failed allocations" } else { "processes whose operations needed fewer allocations" }, 1);
        w.seen(mix2(base, o.hash), failed > 0);
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["threads", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 1-3 threads of a process, warm or cold, make 1-5 calls each (parsing, formatting, classifying, querying, serialising, loading); during one of them (now and then several) one seeded request for memory is refused, or all from it on, or all above a size. Half the cases refuse one process every place its requests come from in turn, the library's own first. The process ends there, or the call reports it (an error of a load, of a sink or of a serialiser, a panic), or returns what it returns alone; calls after it do. Distinct = distinct calls, refusal and events; non-trivial = a request was refused"
    }
    fn real(&self) -> &'static str {
        "the whole library (instrumented build of /repo) and its dependencies, Rust's handling of failed allocations"
    }
    fn stub(&self) -> &'static str {
        "allocator, scheduler, clocks, entropy, environment"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["requests made by the harness around a call are granted"]
    }
}
