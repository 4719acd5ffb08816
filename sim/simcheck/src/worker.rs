//! A zygote: one process holding the library in a known pristine state, from
//! which every simulated process is forked.
use crate::fork::{self, child, ChildEnd};
use crate::pool::Pool;
use crate::xml;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::sched::{self, End, Plan};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Cfg {
    /// country codes in the embedded database; None = the full database
    pub codes: Option<Vec<u16>>,
    /// not 0: the embedded database is a variant of the bundled one
    #[serde(default)]
    pub varied: u64,
    /// leave every table uninitialised in the zygote
    pub cold: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RefRes {
    pub text: String,
    pub events: u64,
}

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub processes: u64,
    pub nontrivial: HashSet<u64>,
    pub all: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub events: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub probes: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
    pub samples: Vec<Value>,
}

pub struct Worker {
    pub cfg: Cfg,
    pub pool: Pool,
    pub seed: u64,
    pub scratch: String,
    pub refs: HashMap<String, RefRes>,
    pub ref_misses: u64,
    server: Option<RefServer>,
    pub tot: Totals,
    pub deadline: u64,
    pub tier: String,
    /// which worker of the check this is
    pub k: usize,
    /// set while minimising or replaying: keep counters out of the evidence
    pub mute: bool,
    /// what a group of cases has in common, kept for the next of them
    pub group: (u64, Value),
    /// places the recorded thread of the last run passed: first and last event, class
    pub sites: Vec<(u64, u64, u8)>,
}

struct RefServer {
    to: std::fs::File,
    from: BufReader<std::fs::File>,
}

pub fn build_embedded(doc: &str, scratch: &str) -> Option<Vec<u8>> {
    let script = std::env::var("SIM_BUILD_SCRIPT").ok()?;
    let dir = format!("{scratch}/embed-{}", unsafe { libc::getpid() });
    std::fs::create_dir_all(format!("{dir}/assets")).ok()?;
    std::fs::create_dir_all(format!("{dir}/out")).ok()?;
    std::fs::write(format!("{dir}/assets/PhoneNumberMetadata.xml"), doc).ok()?;
    let ok = std::process::Command::new(script)
        .current_dir(&dir)
        .env("OUT_DIR", format!("{dir}/out"))
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?
        .success();
    let b = std::fs::read(format!("{dir}/out/database.bin")).ok();
    let _ = std::fs::remove_dir_all(&dir);
    if ok {
        b
    } else {
        None
    }
}

pub fn pin(index: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[index % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

/// A plan under which threads run one after the other.
pub fn serial_plan() -> Plan {
    Plan { soft_budget: 400_000_000, hard_budget: 500_000_000, ..Default::default() }
}

pub fn build_world(dbs: &[String], docs: &[String]) -> World {
    World {
        dbs: dbs
            .iter()
            .map(|t| match ops::load_str(t) {
                Ok(d) => Arc::new(d),
                Err(e) => panic!("harness document does not load: {}", e.text),
            })
            .collect(),
        docs: docs.to_vec(),
        at: None,
    }
}

pub fn end_text(e: End) -> &'static str {
    match e {
        End::Deadlock => "deadlock",
        End::NoProgress => "no progress within the step budget",
        End::Done => "done",
        End::None => "none",
    }
}

/// Run one op as the only call of a process.
fn alone(op: &Op, dbs: &[String], docs: &[String]) -> RefRes {
    let c = child(30, || {
        simrt::libcshim::env_init(0);
        let w = Box::leak(Box::new(build_world(dbs, docs)));
        let cell: &'static std::sync::Mutex<String> = Box::leak(Box::new(std::sync::Mutex::new(String::new())));
        let op = op.clone();
        let w: &'static World = w;
        let o = sched::run(
            serial_plan(),
            vec![Box::new(move || {
                let r = ops::run_op(w, &op);
                let _q = sched::quiet();
                *cell.lock().unwrap() = r;
            })],
        );
        let t = match o.end {
            End::Done => cell.lock().unwrap().clone(),
            e => format!("ALONE {}", end_text(e)),
        };
        serde_json::to_string(&RefRes { text: t, events: o.events }).unwrap()
    });
    match c {
        ChildEnd::Ok(t) => serde_json::from_str(&t).unwrap(),
        ChildEnd::Signal(s) => RefRes { text: format!("ALONE {}", fork::signal_class(s).1), events: 0 },
        ChildEnd::Harness(m) => RefRes { text: format!("HARNESS {m}"), events: 0 },
    }
}

/// The op as the only call in a process where only its own database was loaded.
pub fn localize(op: &Op, dbs: &[String], docs: &[String]) -> (Op, Vec<String>, Vec<String>) {
    let mut op = op.clone();
    let mut d = Vec::new();
    let mut x = Vec::new();
    let f = |r: &mut usize, d: &mut Vec<String>| {
        if *r >= 2 {
            d.push(dbs[*r - 2].clone());
            *r = 2;
        }
    };
    match &mut op {
        Op::Parse { db, .. }
        | Op::All { db, .. }
        | Op::Format { db, .. }
        | Op::FormatWith { db, .. }
        | Op::Valid { db, .. }
        | Op::Type { db, .. }
        | Op::Meta { db, .. }
        | Op::ById { db, .. }
        | Op::ByCode { db, .. }
        | Op::Region { db, .. }
        | Op::Digest { db }
        | Op::Json { db, .. } => f(db, &mut d),
        Op::Load { doc } => {
            x.push(docs[*doc].clone());
            *doc = 0;
        }
        _ => {}
    }
    (op, d, x)
}

impl Worker {
    /// Enter the pristine state described by `cfg`.
    pub fn new(cfg: Cfg, seed: u64, scratch: &str, tier: &str) -> Worker {
        fork::install_hook();
        let _ = xml::terrs();
        let mut cfg = cfg;
        let mut pool = Pool::new(&cfg.codes, cfg.varied);
        if cfg.codes.is_some() {
            let texts: Vec<String> = pool.terrs.iter().map(|t| t.text.clone()).collect();
            let ok = match build_embedded(&xml::doc(&texts), scratch) {
                Some(b) => {
                    simrt::alloc::enter(1);
                    let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
                    ops::embed(b);
                    simrt::alloc::enter(0);
                    // does the library accept it?
                    child(60, || {
                        ops::force_default();
                        String::new()
                    }) == ChildEnd::Ok(String::new())
                }
                None => false,
            };
            if !ok {
                eprintln!("note: reduced database not usable, using the full one");
                // a refused reduced database cannot be taken back: restart without it
                if std::env::var_os("SIM_NO_REDUCED").is_none() {
                    std::env::set_var("SIM_NO_REDUCED", "1");
                    let exe = std::env::current_exe().unwrap();
                    use std::os::unix::process::CommandExt;
                    let e = std::process::Command::new(exe).args(std::env::args().skip(1)).exec();
                    panic!("exec: {e}");
                }
            }
            if std::env::var_os("SIM_NO_REDUCED").is_some() {
                cfg.codes = None;
                pool = Pool::new(&None, 0);
            }
        }
        let w = Worker {
            cfg: cfg.clone(),
            pool,
            seed,
            scratch: scratch.into(),
            refs: HashMap::new(),
            ref_misses: 0,
            server: None,
            tot: Totals::default(),
            deadline: u64::MAX,
            tier: tier.into(),
            k: 0,
            mute: false,
            group: (u64::MAX, Value::Null),
            sites: Vec::new(),
        };
        if !cfg.cold {
            simrt::alloc::enter(1);
            ops::force_default();
            simrt::alloc::enter(0);
        }
        w
    }

    fn start_server(&mut self) {
        unsafe {
            let mut a = [0; 2];
            let mut b = [0; 2];
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            use std::os::fd::FromRawFd;
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                let mut rd = BufReader::new(std::fs::File::from_raw_fd(a[0]));
                let mut wr = std::fs::File::from_raw_fd(b[1]);
                simrt::shm::create();
                simrt::alloc::enter(1);
                ops::force_default();
                simrt::alloc::enter(0);
                let mut line = String::new();
                loop {
                    line.clear();
                    if rd.read_line(&mut line).unwrap_or(0) == 0 {
                        libc::_exit(0);
                    }
                    let (op, d, x): (Op, Vec<String>, Vec<String>) = serde_json::from_str(&line).unwrap();
                    let r = alone(&op, &d, &x);
                    let mut s = serde_json::to_string(&r).unwrap();
                    s.push('\n');
                    if wr.write_all(s.as_bytes()).is_err() {
                        libc::_exit(0);
                    }
                }
            }
            libc::close(a[0]);
            libc::close(b[1]);
            self.server = Some(RefServer {
                to: std::fs::File::from_raw_fd(a[1]),
                from: BufReader::new(std::fs::File::from_raw_fd(b[0])),
            });
        }
    }

    /// What `op` returns when it is the only call ever made in a fresh process.
    pub fn reference(&mut self, op: &Op, dbs: &[String], docs: &[String]) -> RefRes {
        let (op, d, x) = localize(op, dbs, docs);
        let key = serde_json::to_string(&(&op, &d, &x)).unwrap();
        if let Some(r) = self.refs.get(&key) {
            return r.clone();
        }
        self.ref_misses += 1;
        if self.cfg.cold && self.server.is_none() {
            self.start_server();
        }
        let r: RefRes = match &mut self.server {
            None => alone(&op, &d, &x),
            Some(s) => {
                s.to.write_all(key.as_bytes()).unwrap();
                s.to.write_all(b"\n").unwrap();
                let mut line = String::new();
                s.from.read_line(&mut line).unwrap();
                serde_json::from_str(&line).expect("reference server")
            }
        };
        if r.text.starts_with("HARNESS") {
            panic!("reference: {}", r.text);
        }
        if self.refs.len() > 60_000 {
            self.refs.clear();
        }
        self.refs.insert(key, r.clone());
        r
    }

    /// Add the counters of the last simulated process to the evidence.
    pub fn absorb(&mut self) {
        if self.mute {
            return;
        }
        use std::sync::atomic::Ordering::Relaxed;
        let s = simrt::shm::get();
        for (i, n) in simrt::shm::STATS.iter().enumerate() {
            let v = s.stat[i].load(Relaxed);
            if v > 0 {
                *self.tot.stats.entry(n.to_string()).or_insert(0) += v;
            }
        }
        self.tot.processes += 1;
        self.tot.events += s.events.load(Relaxed);
        self.tot.switches += s.switches.load(Relaxed);
    }
    pub fn probe(&mut self, name: &str, n: u64) {
        if !self.mute && n > 0 {
            *self.tot.probes.entry(name.to_string()).or_insert(0) += n;
        }
    }
    /// A fault injected outside any simulated process (what storage did).
    pub fn fault(&mut self, name: &str, n: u64) {
        debug_assert!(simrt::shm::STATS.contains(&name));
        if !self.mute && n > 0 {
            *self.tot.stats.entry(name.to_string()).or_insert(0) += n;
        }
    }
    pub fn seen(&mut self, sig: u64, nontrivial: bool) {
        if self.mute {
            return;
        }
        self.tot.all.insert(sig);
        if nontrivial {
            self.tot.nontrivial.insert(sig);
        }
    }
    pub fn time_left(&self) -> bool {
        simrt::sys::real_now() < self.deadline
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    /// a more explicit case (for example with the recorded schedule)
    pub refined: Option<Value>,
}
impl Violation {
    pub fn new(class: &str, msg: String) -> Violation {
        Violation { class: class.into(), msg, refined: None }
    }
}

pub type Run = Result<Option<Violation>, String>;

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[allow(dead_code)]
pub fn read_all(p: &str) -> String {
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(p) {
        let _ = f.read_to_string(&mut s);
    }
    s
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}
pub fn plan_json(p: &Plan) -> Value {
    json!({
        "seed": p.seed, "policy": p.policy, "p_hot": p.p_hot, "p_load": p.p_load, "p_any": p.p_any,
        "mask": p.mask, "sel": p.sel,
        "changes": p.changes, "quantum": p.quantum, "p_spurious": p.p_spurious,
        "stall": p.stall.map(|(a, b, c, d)| json!([a, b, c, d])),
        "first": p.first, "patience": p.patience, "record": p.record,
        "soft_budget": p.soft_budget, "hard_budget": p.hard_budget,
        "script": p.script.iter().map(|a| json!([a.tid, a.at, a.kind, a.next])).collect::<Vec<_>>(),
    })
}
pub fn plan_from(v: &Value) -> Plan {
    let u = |k: &str| v[k].as_u64().unwrap_or(0);
    Plan {
        seed: u("seed"),
        policy: u("policy") as u8,
        p_hot: u("p_hot") as u32,
        p_load: u("p_load") as u32,
        p_any: u("p_any") as u32,
        mask: u("mask") as u32,
        sel: u("sel") as u32,
        changes: v["changes"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
        quantum: u("quantum"),
        p_spurious: u("p_spurious") as u32,
        stall: v["stall"].as_array().and_then(|a| {
            Some((a.first()?.as_u64()? as u16, a.get(1)?.as_u64()?, a.get(2)?.as_bool()?, a.get(3)?.as_u64()? as u8))
        }),
        first: u("first") as u16,
        patience: u("patience") as u32,
        record: u("record") as u16,
        soft_budget: u("soft_budget"),
        hard_budget: u("hard_budget"),
        script: v["script"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|x| simrt::shm::Act {
                        tid: x[0].as_u64().unwrap_or(0) as u16,
                        at: x[1].as_u64().unwrap_or(0),
                        kind: x[2].as_u64().unwrap_or(0) as u32,
                        next: x[3].as_u64().unwrap_or(0) as u16,
                    })
                    .collect()
            })
            .unwrap_or_default(),
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        if std::env::var_os("SIM_COSTS").is_some() {
            let mut m: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
            for (k, v) in &self.refs {
                let kk: String = k.trim_start_matches('[').trim_start_matches('{').chars().take_while(|c| *c != ':').collect();
                let db = k.contains("\"db\":2");
                let e = m.entry(format!("{kk} {db}")).or_default();
                e.0 += 1;
                e.1 += v.events;
                e.2 = e.2.max(v.events);
            }
            for (k, v) in m {
                eprintln!("{k} n={} avg={} max={}", v.0, v.1 / v.0, v.2);
            }
        }
    }
}
