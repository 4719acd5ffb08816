//! What most properties share: one simulated process, some simulated threads,
//! a list of steps per thread.
use crate::fork::{self, child, ChildEnd};
use crate::worker::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::sched::{self, End, Plan};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

pub struct Setup {
    pub limit: u64,
    pub plan: Plan,
    pub env: u64,
    pub heap: u8,
}
impl Setup {
    pub fn of(case: &Value, limit: u64) -> Setup {
        Setup { limit, plan: plan_from(&case["plan"]), env: case["env"].as_u64().unwrap_or(0), heap: case["heap"].as_u64().unwrap_or(0) as u8 }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Got<T> {
    Val(T),
    /// the step itself panicked
    Panic(String),
    /// never returned
    Never,
}

pub struct SimOut<T, P> {
    pub end: String,
    pub per: Value,
    pub hash: u64,
    pub switches: u64,
    pub res: Vec<Vec<Got<T>>>,
    pub post: Option<P>,
    /// events each thread executed
    pub events: Vec<u64>,
    pub acts: Vec<simrt::shm::Act>,
}
pub enum Sim<T, P> {
    Done(SimOut<T, P>),
    /// the process died: class, description, (thread, step) it was in
    Died(String, String, (usize, usize), Vec<simrt::shm::Act>),
}

/// Run `steps[i]` steps on thread `i` of a fresh simulated process. Everything
/// the library may read has to be made by `prep`, so that no address depends on
/// what the harness did before.
pub fn simulate<C, T, P>(
    w: &mut Worker,
    s: &Setup,
    steps: &[usize],
    prep: impl FnOnce() -> C,
    body: fn(&'static C, usize, usize) -> T,
    post: Option<fn(&'static C) -> P>,
) -> Result<Sim<T, P>, String>
where
    C: 'static,
    T: Serialize + DeserializeOwned + Clone + 'static,
    P: Serialize + DeserializeOwned + 'static,
{
    if steps.is_empty() {
        return Err("no threads to simulate".into());
    }
    let c = child(s.limit, || {
        simrt::alloc::MODE.store(s.heap, Ordering::Relaxed);
        simrt::libcshim::env_init(s.env);
        let ctx: &'static C = Box::leak(Box::new(prep()));
        let addr = ctx as *const C as usize;
        let res: &'static mut Vec<Vec<Got<T>>> = Box::leak(Box::new(steps.iter().map(|n| vec![Got::Never; *n]).collect()));
        let base = res.as_mut_ptr() as usize;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for (i, n) in steps.iter().copied().enumerate() {
            bodies.push(Box::new(move || {
                let ctx: &'static C = unsafe { &*(addr as *const C) };
                for j in 0..n {
                    simrt::shm::get().phase.store(((i as u64) << 32) | j as u64, Ordering::Relaxed);
                    let r = catch_unwind(AssertUnwindSafe(|| body(ctx, i, j)));
                    let _q = sched::quiet();
                    let g = match r {
                        Ok(v) => Got::Val(v),
                        Err(p) => Got::Panic(format!("{} at {}", ops::panic_text(p), fork::last_panic())),
                    };
                    unsafe { (&mut (*(base as *mut Vec<Got<T>>).add(i)))[j] = g };
                }
            }));
        }
        let o = sched::run(s.plan.clone(), bodies);
        let mut pv: Value = Value::Null;
        let mut end = o.end;
        let mut end_name = end_text(o.end).to_string();
        if let (End::Done, Some(f)) = (end, post) {
            let cell: &'static std::sync::Mutex<Option<P>> = Box::leak(Box::new(std::sync::Mutex::new(None)));
            let ca = cell as *const _ as usize;
            simrt::shm::get().phase.store(u64::MAX, Ordering::Relaxed);
            let o2 = sched::run(
                serial_plan(),
                vec![Box::new(move || {
                    let ctx: &'static C = unsafe { &*(addr as *const C) };
                    let cell: &'static std::sync::Mutex<Option<P>> = unsafe { &*(ca as *const std::sync::Mutex<Option<P>>) };
                    let r = f(ctx);
                    let _q = sched::quiet();
                    *cell.lock().unwrap() = Some(r);
                })],
            );
            end = o2.end;
            if end != End::Done {
                end_name = format!("{} (in the calls afterwards)", end_text(o2.end));
            } else {
                pv = serde_json::to_value(cell.lock().unwrap().as_ref().expect("post result")).unwrap();
            }
        }
        json!({"end": end_name, "hash": o.hash, "per": o.per_thread, "res": res, "post": pv, "switches": o.switches, "ns": o.sim_ns}).to_string()
    });
    let acts = sched::actions();
    w.absorb();
    let t = match c {
        ChildEnd::Ok(t) => t,
        ChildEnd::Signal(sg) => {
            let (cl, m) = fork::signal_class(sg);
            let ph = simrt::shm::get().phase.load(Ordering::Relaxed);
            let at = if ph == u64::MAX { (usize::MAX, 0) } else { ((ph >> 32) as usize, (ph & 0xffff_ffff) as usize) };
            return Ok(Sim::Died(cl.into(), m, at, acts));
        }
        ChildEnd::Harness(m) => return Err(m),
    };
    let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    if !w.mute {
        w.tot.sim_ns += v["ns"].as_u64().unwrap_or(0);
    }
    Ok(Sim::Done(SimOut {
        end: v["end"].as_str().unwrap_or("").into(),
        per: v["per"].clone(),
        hash: v["hash"].as_u64().unwrap_or(0),
        switches: v["switches"].as_u64().unwrap_or(0),
        res: serde_json::from_value(v["res"].clone()).map_err(|e| e.to_string())?,
        post: serde_json::from_value(v["post"].clone()).ok(),
        events: v["per"].as_array().map(|a| a.iter().map(|x| x[0].as_u64().unwrap_or(0)).collect()).unwrap_or_default(),
        acts,
    }))
}

/// A violation with the recorded schedule as the more explicit case.
pub fn viol(case: &Value, acts: &[simrt::shm::Act], class: &str, msg: String) -> Run {
    let mut v = Violation::new(class, msg);
    let mut p = plan_from(&case["plan"]);
    if p.policy != 0 && acts.len() < 50_000 {
        p.policy = 0;
        p.script = acts.to_vec();
        let mut c = case.clone();
        c["plan"] = plan_json(&p);
        v.refined = Some(c);
    }
    Ok(Some(v))
}

/// Class of an end that is not "done".
pub fn end_class(end: &str) -> &'static str {
    if end.starts_with("deadlock") {
        "deadlock"
    } else {
        "no-progress"
    }
}

pub fn budget(p: &mut Plan, events: u64) {
    p.soft_budget = events;
    p.hard_budget = 2 * events;
}

pub fn from_case<T: DeserializeOwned>(case: &Value, key: &str) -> Result<T, String> {
    serde_json::from_value(case[key].clone()).map_err(|e| format!("{key}: {e}"))
}

/// A process in which generations of threads come and go.
pub enum Gens<R> {
    Done(R),
    /// class, description, generation
    Bad(String, String, u64),
}
#[allow(clippy::too_many_arguments)]
pub fn generations<C, R>(
    w: &mut Worker,
    s: &Setup,
    gens: usize,
    nt: usize,
    prep: impl FnOnce() -> C,
    body: fn(&'static C, usize, usize),
    between: fn(&'static C, usize),
    finish: fn(&'static C) -> R,
) -> Result<Gens<R>, String>
where
    C: 'static,
    R: Serialize + DeserializeOwned,
{
    let c = child(s.limit, || {
        simrt::alloc::MODE.store(s.heap, Ordering::Relaxed);
        simrt::libcshim::env_init(s.env);
        let ctx: &'static C = Box::leak(Box::new(prep()));
        let addr = ctx as *const C as usize;
        let mut ns = 0;
        for g in 0..gens {
            simrt::shm::get().phase.store(g as u64, Ordering::Relaxed);
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::with_capacity(nt);
            for t in 0..nt {
                bodies.push(Box::new(move || body(unsafe { &*(addr as *const C) }, g, t)));
            }
            let mut p = s.plan.clone();
            p.seed = simrt::rng::mix2(p.seed, g as u64);
            let o = sched::run(p, bodies);
            ns = o.sim_ns;
            if o.end != End::Done {
                return json!({"end": end_text(o.end), "gen": g}).to_string();
            }
            drop(o);
            between(ctx, g);
        }
        json!({"end": "done", "r": finish(ctx), "ns": ns}).to_string()
    });
    w.absorb();
    match c {
        ChildEnd::Ok(t) => {
            let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            if v["end"] != "done" {
                let e = v["end"].as_str().unwrap_or("");
                return Ok(Gens::Bad(end_class(e).into(), e.into(), v["gen"].as_u64().unwrap_or(0)));
            }
            if !w.mute {
                w.tot.sim_ns += v["ns"].as_u64().unwrap_or(0);
            }
            Ok(Gens::Done(serde_json::from_value(v["r"].clone()).map_err(|e| e.to_string())?))
        }
        ChildEnd::Signal(sg) => {
            let (cl, m) = fork::signal_class(sg);
            Ok(Gens::Bad(cl.into(), m, simrt::shm::get().phase.load(Ordering::Relaxed)))
        }
        ChildEnd::Harness(m) => Err(m),
    }
}
