//! Deterministic simulation of the phonenumber library.
//!   simcheck check --prop C01 --tier quick --seed 1
//!   simcheck replay FILE
//!   simcheck determinism --prop C01 --seed 1 --n 200
mod docmodel;
mod fork;
mod pool;
mod props;
mod regen;
mod shrink;
mod worker;
mod symbols;
mod xml;

use serde_json::{json, Value};
use simrt::rng::{mix2, Rng};
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Stdio};
use worker::*;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

const NW: usize = 8;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn rounds(tier: &str) -> (usize, f64) {
    if let Ok(s) = std::env::var("SIM_SECS") {
        let t: f64 = s.parse().unwrap_or(20.0);
        return if tier == "quick" { (2, t / 2.0) } else { (((t / 60.0).ceil() as usize).max(1), 60.0) };
    }
    if tier == "quick" {
        (2, 25.0)
    } else {
        (10, 60.0)
    }
}

fn wseed(seed: u64, prop: &str, round: u64, k: u64) -> u64 {
    mix2(mix2(seed, hash_str(prop)), round * 1000 + k)
}

#[derive(Clone)]
struct Known {
    property: String,
    class: String,
    matches: Vec<String>,
    what: String,
}
fn known() -> Vec<Known> {
    let t = read_all(&format!("{}/known_findings.json", verif()));
    let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
    let mut o = Vec::new();
    for e in v["findings"].as_array().cloned().unwrap_or_default() {
        o.push(Known {
            property: e["property"].as_str().unwrap_or("").into(),
            class: e["class"].as_str().unwrap_or("").into(),
            matches: e["matches"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
            what: e["what"].as_str().unwrap_or("").into(),
        });
    }
    o
}
fn known_match(ks: &[Known], prop: &str, v: &Violation) -> Option<usize> {
    ks.iter().position(|k| k.property == prop && k.class == v.class && !k.matches.is_empty() && k.matches.iter().all(|m| v.msg.contains(m)))
}

fn worker_main() -> i32 {
    let id = arg("--prop").unwrap();
    let tier = arg("--tier").unwrap_or("quick".into());
    let seed = num("--seed", 1);
    let round = num("--round", 0);
    let k = num("--k", 0);
    let secs: f64 = arg("--secs").and_then(|x| x.parse().ok()).unwrap_or(20.0);
    let max = num("--max", u64::MAX);
    let out = arg("--out").unwrap();
    let scratch = format!("{}/k{k}", arg("--scratch").unwrap());
    std::fs::create_dir_all(&scratch).unwrap();
    let prop = props::get(&id).unwrap();
    pin(k as usize);
    simrt::shm::create();
    let ws = wseed(seed, &id, round, k);
    let mut cr = Rng::new(mix2(ws, 0xcf6));
    let cfg = prop.cfg(&mut cr, k as usize, round as usize);
    let t0 = simrt::sys::real_now();
    let mut w = Worker::new(cfg, ws, &scratch, &tier);
    w.k = k as usize;
    w.deadline = t0 + (secs * 1e9) as u64;
    let ks = known();
    let mut idx = num("--first", 0);
    let mut viol: Vec<Value> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    while w.time_left() && w.tot.runs < max {
        let mut r = Rng::new(mix2(ws, idx));
        let case = match prop.gen(&mut w, &mut r, idx) {
            Some(c) => c,
            None => {
                idx += 1;
                if idx > 1_000_000_000 {
                    break;
                }
                continue;
            }
        };
        w.tot.runs += 1;
        if w.tot.samples.len() < 2 && (idx == 3 || idx == 17) {
            w.tot.samples.push(json!({"round": round, "worker": k, "idx": idx, "seed": ws, "case": clip(&case.to_string(), 2500)}));
        }
        match prop.run(&mut w, &case) {
            Ok(None) => {}
            Err(m) => {
                *w.tot.probes.entry("harness errors".into()).or_insert(0) += 1;
                if w.tot.harness_errors.len() < 5 {
                    w.tot.harness_errors.push(format!("idx {idx}: {}", clip(&m, 400)));
                }
            }
            Ok(Some(v)) => {
                if let Some(i) = known_match(&ks, &id, &v) {
                    *known_hits.entry(ks[i].what.clone()).or_insert(0) += 1;
                    idx += 1;
                    continue;
                }
                eprintln!("[{id} r{round} k{k} idx {idx}] {}: {}", v.class, clip(&v.msg, 600));
                let sec = if tier == "quick" { 25.0 } else { 60.0 };
                // as it is, should making it smaller fail
                let orig = json!({
                    "property": id, "class": v.class, "msg": v.msg, "cfg": w.cfg, "worker_seed": ws,
                    "origin": {"seed": seed, "round": round, "worker": k, "idx": idx, "tier": tier},
                    "minimise_tries": 0, "case": case,
                });
                let _ = std::fs::write(format!("{out}.orig"), json!({"class": v.class, "msg": v.msg, "idx": idx, "min": orig, "orig": orig}).to_string());
                let s = shrink::shrink(&*prop, &mut w, &case, v.clone(), sec);
                let mk = |c: &Value, v: &Violation| {
                    json!({
                        "property": id, "class": v.class, "msg": v.msg, "cfg": w.cfg, "worker_seed": ws,
                        "origin": {"seed": seed, "round": round, "worker": k, "idx": idx, "tier": tier},
                        "minimise_tries": s.tries, "case": c,
                    })
                };
                viol.push(json!({"class": s.v.class, "msg": s.v.msg, "idx": idx, "min": mk(&s.case, &s.v), "orig": mk(&case, &v)}));
                break;
            }
        }
        idx += 1;
    }
    let t = &w.tot;
    let o = json!({
        "runs": t.runs, "processes": t.processes, "events": t.events, "switches": t.switches, "sim_ns": t.sim_ns,
        "stats": t.stats, "probes": t.probes, "harness": t.harness_errors, "samples": t.samples,
        "nontrivial": t.nontrivial.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
        "all": t.all.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
        "violations": viol, "known": known_hits, "ref_runs": w.ref_misses, "cfg": w.cfg, "seed": ws,
        "wall": (simrt::sys::real_now() - t0) as f64 / 1e9,
    });
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, o.to_string()).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    0
}

fn replay_main(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {path}: {e}");
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&t).unwrap();
    let id = v["property"].as_str().unwrap();
    let prop = props::get(id).unwrap();
    pin(0);
    simrt::shm::create();
    let scratch = arg("--scratch").unwrap_or_else(|| format!("/tmp/simcheck-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let cfg: Cfg = serde_json::from_value(v["cfg"].clone()).unwrap();
    let mut w = Worker::new(cfg, v["worker_seed"].as_u64().unwrap(), &scratch, "quick");
    let r = prop.run(&mut w, &v["case"]);
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        Ok(None) => {
            println!("{id}: holds on this case");
            0
        }
        Ok(Some(x)) => {
            println!("{id}: {}: {}", x.class, x.msg);
            if Some(x.class.as_str()) == v["class"].as_str() {
                println!("VIOLATION property={id} replay={path}");
                1
            } else {
                3
            }
        }
        Err(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

/// Run each case twice (once in this process, once in another) and compare.
fn determinism_main() -> i32 {
    let id = arg("--prop").unwrap();
    let seed = num("--seed", 1);
    let n = num("--n", 100);
    let dump = arg("--dump");
    let prop = props::get(&id).unwrap();
    let k = num("--k", 1);
    let round = num("--round", 0);
    pin(num("--cpu", k) as usize);
    simrt::shm::create();
    let ws = wseed(seed, &id, round, k);
    let mut cr = Rng::new(mix2(ws, 0xcf6));
    let cfg = prop.cfg(&mut cr, k as usize, round as usize);
    let scratch = format!("/tmp/simcheck-det-{}", std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let mut w = Worker::new(cfg, ws, &scratch, "quick");
    let order: Vec<u64> = if arg("--reverse").is_some() { (0..n).rev().collect() } else { (0..n).collect() };
    let mut lines = vec![String::new(); n as usize];
    if let Some(i) = arg("--case") {
        // one case again and again
        let idx: u64 = i.parse().unwrap();
        let case = prop.gen(&mut w, &mut Rng::new(mix2(ws, idx)), idx).unwrap();
        println!("{case}");
        for _ in 0..n {
            w.tot = Totals::default();
            let _ = prop.run(&mut w, &case);
            println!("{:?} {}", w.tot.all, w.tot.events);
        }
        return 0;
    }
    for idx in order {
        let mut r = Rng::new(mix2(ws, idx));
        let Some(case) = prop.gen(&mut w, &mut r, idx) else { continue };
        w.tot = Totals::default();
        let res = prop.run(&mut w, &case);
        let mut sig: Vec<_> = w.tot.all.iter().map(|x| format!("{x:x}")).collect();
        sig.sort();
        let res = match res {
            Ok(None) => "ok".to_string(),
            Ok(Some(v)) => format!("viol {} {:x}", v.class, hash_str(&v.msg)),
            Err(m) => format!("harness {m}"),
        };
        lines[idx as usize] = format!("{idx} case={:x} sig={} events={} sw={} stats={:?} {res}", hash_str(&case.to_string()), sig.join(","), w.tot.events, w.tot.switches, w.tot.stats);
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let t = lines.join("\n");
    match dump {
        Some(p) => std::fs::write(p, t).unwrap(),
        None => println!("{t}"),
    }
    0
}

fn check_main() -> i32 {
    let id = arg("--prop").unwrap();
    let tier = arg("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = arg("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1u64);
    let Some(prop) = props::get(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let exe = std::env::current_exe().unwrap();
    let scratch = format!("{}/scratch/{id}-{}", verif(), std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let t0 = std::time::Instant::now();
    println!("seed {seed} property {id} tier {tier}");
    let (nrounds, secs) = rounds(&tier);
    let mut outs: Vec<Value> = Vec::new();
    let mut worker_failures: Vec<String> = Vec::new();
    let mut found: Vec<Value> = Vec::new();
    let mut confirmed: Option<(String, Value)> = None;
    let mut unreproduced: Vec<Value> = Vec::new();
    'rounds: for round in 0..nrounds {
        let mut kids = Vec::new();
        for k in 0..NW {
            let out = format!("{scratch}/r{round}-k{k}.json");
            let c = Command::new(&exe)
                .args(["worker", "--prop", &id, "--tier", &tier, "--seed", &seed.to_string(), "--round", &round.to_string(), "--k", &k.to_string()])
                .args(["--secs", &secs.to_string(), "--out", &out, "--scratch", &scratch])
                .stdin(Stdio::null())
                .spawn()
                .expect("spawn worker");
            kids.push((k, out, c));
        }
        // collect; once something is found, give the others a moment and stop them
        let mut first_found: Option<std::time::Instant> = None;
        let start = std::time::Instant::now();
        let hard = secs * 2.0 + 150.0;
        while !kids.is_empty() {
            let mut i = 0;
            while i < kids.len() {
                if let Ok(Some(st)) = kids[i].2.try_wait() {
                    let (k, out, _) = kids.remove(i);
                    let t = read_all(&out);
                    match serde_json::from_str::<Value>(&t) {
                        Ok(v) => {
                            if v["violations"].as_array().is_some_and(|a| !a.is_empty()) {
                                found.extend(v["violations"].as_array().unwrap().iter().cloned());
                                first_found.get_or_insert(std::time::Instant::now());
                            }
                            outs.push(v);
                        }
                        Err(_) => match serde_json::from_str::<Value>(&read_all(&format!("{out}.orig"))) {
                            Ok(v) => {
                                found.push(v);
                                first_found.get_or_insert(std::time::Instant::now());
                            }
                            Err(_) => worker_failures.push(format!("round {round} worker {k}: {st}")),
                        },
                    }
                    let _ = std::fs::remove_file(&out);
                } else {
                    i += 1;
                }
            }
            let stop = first_found.is_some_and(|t| t.elapsed().as_secs_f64() > 3.0) || start.elapsed().as_secs_f64() > hard;
            if stop {
                for (k, out, c) in kids.iter_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                    if let (Ok(v), true) = (serde_json::from_str::<Value>(&read_all(&format!("{out}.orig"))), first_found.is_none()) {
                        found.push(v);
                    } else if first_found.is_none() {
                        worker_failures.push(format!("round {round} worker {k}: exceeded its time"));
                    }
                }
                kids.clear();
            }
            std::thread::sleep(std::time::Duration::from_millis(30));
        }
        // confirm in a fresh process before saying anything
        found.sort_by_key(|f| f["min"].to_string().len());
        for f in found.drain(..) {
            for kind in ["min", "orig"] {
                let body = &f[kind];
                let dir = format!("{}/replays", verif());
                std::fs::create_dir_all(&dir).unwrap();
                let path = format!("{dir}/{id}-{:016x}.json", hash_str(&body["case"].to_string()));
                std::fs::write(&path, serde_json::to_string_pretty(body).unwrap()).unwrap();
                let o = Command::new(&exe).args(["replay", &path]).stdin(Stdio::null()).output().expect("replay");
                if o.status.code() == Some(1) {
                    confirmed = Some((path, body.clone()));
                    break;
                }
                let _ = std::fs::remove_file(&path);
                unreproduced.push(json!({"kind": kind, "class": f["class"], "msg": clip(f["msg"].as_str().unwrap_or(""), 500), "idx": f["idx"], "replay": String::from_utf8_lossy(&o.stdout)}));
            }
            if confirmed.is_some() {
                break 'rounds;
            }
        }
        if worker_failures.len() >= NW {
            break;
        }
    }
    // ---- evidence
    let sum = |k: &str| outs.iter().map(|o| o[k].as_u64().unwrap_or(0)).sum::<u64>();
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for o in &outs {
            if let Some(x) = o[k].as_object() {
                for (n, v) in x {
                    *m.entry(n.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let union = |k: &str| {
        let mut s: HashSet<String> = HashSet::new();
        for o in &outs {
            for x in o[k].as_array().into_iter().flatten() {
                s.insert(x.as_str().unwrap_or("").into());
            }
        }
        s.len() as u64
    };
    let runs = sum("runs");
    let wall = t0.elapsed().as_secs_f64();
    let known_hits = merge("known");
    let harness: Vec<Value> = outs.iter().flat_map(|o| o["harness"].as_array().cloned().unwrap_or_default()).take(10).collect();
    let n_harness = merge("probes").get("harness errors").copied().unwrap_or(0);
    let samples: Vec<Value> = outs.iter().flat_map(|o| o["samples"].as_array().cloned().unwrap_or_default()).take(6).collect();
    let cfgs: Vec<Value> = outs.iter().map(|o| o["cfg"].clone()).collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": prop.level(),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": union("nontrivial"),
            "distinct": union("all"),
            "rule": prop.rule(),
            "samples": samples,
            "simulated_processes": sum("processes"),
            "reference_processes": sum("ref_runs"),
            "runs_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "scheduling_points": sum("events"),
            "thread_switches": sum("switches"),
            "simulated_seconds": sum("sim_ns") as f64 / 1e9,
            "faults_injected": merge("stats"),
            "probes": merge("probes"),
            "zygotes": cfgs,
            "real_components": prop.real(),
            "stubbed_components": prop.stub(),
            "harness_errors": harness,
            "worker_failures": worker_failures,
            "unreproduced": unreproduced,
            "known_findings_hit": known_hits,
        },
        "assumptions": prop.assumptions(),
        "wall_s": wall,
        "violations": if confirmed.is_some() { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", verif());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    for k in known() {
        if k.property == id {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    println!(
        "{id}: {runs} runs, {} distinct non-trivial, {} simulated processes, {:.0} s, harness errors {n_harness}, worker failures {}, unreproduced {}",
        union("nontrivial"),
        sum("processes"),
        wall,
        worker_failures.len(),
        unreproduced.len()
    );
    if let Some((path, b)) = confirmed {
        println!("{}: {}", b["class"].as_str().unwrap_or(""), b["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    for f in &worker_failures {
        println!("worker failure: {f}");
    }
    for f in &harness {
        println!("harness error: {f}");
    }
    for f in &unreproduced {
        println!("unreproduced: {f}");
    }
    if runs == 0 || worker_failures.len() * 2 > NW * nrounds || n_harness * 2 > runs {
        println!("the check could not decide");
        return 2;
    }
    0
}

/// Do all generated variants of the bundled territories load?
fn variants_main() -> i32 {
    let mut bad = 0;
    for i in 0..num("--n", 5000) {
        let mut r = Rng::new(mix2(num("--seed", 1), i));
        let t: Vec<String> = (0..3).map(|_| r.pick(xml::terrs()).text.clone()).collect();
        let mut t: Vec<String> = t.iter().map(|x| { let x = if i % 2 == 0 { pool::slim(&mut r, x) } else { x.clone() }; pool::vary(&mut r, &x) }).collect();
        pool::exchange(&mut r, &mut t);
        let d = pool::vary(&mut r, &xml::doc(&t));
        if let Err(e) = ops::load_str(&d) {
            println!("{i}: {}", e.text);
            bad += 1;
        }
    }
    println!("{bad} do not load");
    (bad > 0) as i32
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "check" => check_main(),
        "worker" => worker_main(),
        "replay" => replay_main(&std::env::args().nth(2).unwrap()),
        "determinism" => determinism_main(),
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        "variants" => variants_main(),
        _ => {
            eprintln!("usage: simcheck check|worker|replay|determinism|list");
            2
        }
    };
    std::process::exit(code);
}
