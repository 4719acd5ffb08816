//! C12: the real build script, run over a faulty disk, killed, and run again.
use super::load::Source;
use super::*;
use crate::docmodel;
use crate::fork::{child, ChildEnd};
use crate::worker::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::{mix, mix2};
use simrt::sched;
use std::collections::HashMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub struct Build;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Attempt {
    doc: usize,
    /// (call, class, nth, kind, argument), see preload.c
    faults: Vec<(u8, u8, u64, char, u64)>,
    /// (seed, largest transfer, interruptions in 1/65536)
    flow: Option<(u64, u64, u64)>,
    room: Option<u64>,
}

struct Ran {
    /// None = still running after the time limit
    status: Option<std::process::ExitStatus>,
    log: String,
    err: String,
    out: Option<Vec<u8>>,
}

fn attempt(dir: &str, a: &Attempt, text: &str) -> Result<Ran, String> {
    let script = std::env::var("SIM_BUILD_SCRIPT").map_err(|_| "no SIM_BUILD_SCRIPT".to_string())?;
    let lib = std::env::var("SIM_PRELOAD").map_err(|_| "no SIM_PRELOAD".to_string())?;
    let io = |e: std::io::Error| e.to_string();
    std::fs::write(format!("{dir}/assets/PhoneNumberMetadata.xml"), text).map_err(io)?;
    let log = format!("{dir}/log");
    let _ = std::fs::remove_file(&log);
    let plan: Vec<String> = a.faults.iter().map(|f| format!("{}.{}.{}.{}{}", f.0, f.1, f.2, f.3, f.4)).collect();
    let mut c = Command::new(script);
    c.current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("OUT_DIR", format!("{dir}/out"))
        .env("LD_PRELOAD", lib)
        .env("SIMPRE_ROOT", dir)
        .env("SIMPRE_LOG", &log)
        .env("SIMPRE_PLAN", plan.join(","))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(format!("{dir}/err")).map_err(io)?);
    if let Some(f) = a.flow {
        c.env("SIMPRE_FLOW", format!("{}.{}.{}", f.0, f.1, f.2));
    }
    if let Some(n) = a.room {
        c.env("SIMPRE_ROOM", n.to_string());
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 60, rlim_max: 62 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut p = c.spawn().map_err(io)?;
    let end = simrt::sys::real_now() + 120_000_000_000;
    let mut nap = 200;
    let status = loop {
        if let Some(s) = p.try_wait().map_err(io)? {
            break Some(s);
        }
        if simrt::sys::real_now() > end {
            let _ = p.kill();
            let _ = p.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    };
    Ok(Ran {
        status,
        log: std::fs::read_to_string(&log).unwrap_or_default(),
        err: std::fs::read_to_string(format!("{dir}/err")).unwrap_or_default(),
        out: std::fs::read(format!("{dir}/out/database.bin")).ok(),
    })
}

/// The default database of a fresh process in which these bytes are embedded.
fn digest_embedded(b: Option<&[u8]>) -> Result<String, String> {
    let c = child(100, || {
        if let Some(b) = b {
            ops::embed(Box::leak(b.to_vec().into_boxed_slice()));
        }
        let r = std::panic::catch_unwind(|| ops::db_digest(&ops::phonenumber::metadata::DATABASE));
        match r {
            Ok(s) => format!("{:x} {}", hash_str(&s), clip(&s, 200)),
            Err(p) => format!("PANIC {}", ops::panic_text(p)),
        }
    });
    end(c)
}
fn digest_document(t: &str) -> Result<String, String> {
    let c = child(100, || match ops::load_str(t) {
        Ok(d) => {
            let s = ops::db_digest(&d);
            format!("{:x} {}", hash_str(&s), clip(&s, 200))
        }
        Err(e) => format!("Err {}", e.text),
    });
    end(c)
}
fn end(c: ChildEnd) -> Result<String, String> {
    match c {
        ChildEnd::Ok(s) => Ok(s),
        ChildEnd::Signal(s) => Ok(format!("DIED {s}")),
        ChildEnd::Harness(m) => Err(m),
    }
}

thread_local! {
    static SEEN: std::cell::RefCell<HashMap<(u64, u64), String>> = Default::default();
}

fn gen_faults(r: &mut Rng, text: &str, small: bool) -> Vec<(u8, u8, u64, char, u64)> {
    let mut v = Vec::new();
    let len = text.len() as u64;
    if r.chance(1, 3) {
        // the document ends early, or cannot be read on from some byte
        let at = super::load::cut_at(r, text);
        v.push((1, 1, at, 'o', *r.pick(&[0, 0, 0, libc::EIO as u64, libc::ESTALE as u64])));
        return v;
    }
    let per = if small { 300 } else { 8192 };
    let err = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EINTR, libc::EAGAIN, libc::EROFS, libc::ENOMEM, libc::ESTALE];
    for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
        let (call, cls) = match r.below(16) {
            0 => (0, 1),
            1 => (0, 2),
            2..=6 => (1, 1),
            7..=12 => (2, 2),
            13 => (3, r.range(1, 2) as u8),
            14 => (2, 3),
            _ => (*r.pick(&[4, 5]), 2),
        };
        let n = match (call, cls) {
            (1, _) => r.below(len / per + 2),
            (2, 2) => {
                if r.chance(1, 3) {
                    r.below(4)
                } else {
                    r.below(len / per / 2 + 3)
                }
            }
            _ => 0,
        };
        let (kind, arg) = match r.below(8) {
            0..=2 => ('e', *r.pick(&err) as u64),
            3 => ('E', *r.pick(&[libc::EIO, libc::ENOSPC]) as u64),
            4 if call == 1 => ('z', 0),
            4 | 5 => ('s', r.range(1, 3000)),
            6 => ('t', r.below(8192)),
            _ => (*r.pick(&['k', 'K']), 0),
        };
        v.push((call, cls, n, kind, arg));
    }
    v
}

impl Prop for Build {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn cfg(&self, _r: &mut Rng, _k: usize, _round: usize) -> Cfg {
        Cfg { codes: None, varied: 0, cold: true }
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        if idx == 0 && w.k == 0 {
            return Some(json!({"embedded": true}));
        }
        let mut docs = Vec::new();
        for _ in 0..r.range(1, 2) {
            docs.push(match r.below(12) {
                0..=6 => Source::Model(docmodel::gen(r)),
                _ => {
                    let n = r.log(1, 12) as usize;
                    Source::Bundled(subset(r, n))
                }
            });
        }
        if idx % 40 == 20 && (w.tier == "thorough" || idx % 80 == 20) {
            docs = vec![Source::Full];
        }
        let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
        let len: Vec<u64> = texts.iter().map(|d| d.len() as u64).collect();
        let mut attempts = Vec::new();
        for _ in 0..r.range(1, 6) {
            let doc = r.below(docs.len() as u64) as usize;
            let small = r.chance(1, 2);
            let flow = if small { Some((r.next() & 0xffff_ffff, r.log(16, 600).max(len[doc] / 400), if r.chance(1, 2) { r.log(50, 8000) } else { 0 })) } else { None };
            let what = r.below(10);
            // the output is about a sixth to a half of the document
            let room = if what == 0 { Some(r.below(len[doc] / 2)) } else { None };
            let faults = if what < 8 && room.is_none() { gen_faults(r, &texts[doc], small) } else { vec![] };
            attempts.push(Attempt { doc, faults, flow, room });
        }
        Some(json!({"docs": docs, "attempts": attempts}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        if case["embedded"] == true {
            let a = digest_embedded(None)?;
            w.absorb();
            let b = digest_document(crate::xml::full_text())?;
            w.absorb();
            w.probe("default database compared with the bundled document", 1);
            w.seen(hash_str(&a), false);
            if a != b {
                return Ok(Some(Violation::new("embedded-differs", format!("the default database and the bundled document differ\n  embedded: {a}\n  document: {b}"))));
            }
            return Ok(None);
        }
        let docs: Vec<Source> = super::common::from_case(case, "docs")?;
        let attempts: Vec<Attempt> = super::common::from_case(case, "attempts")?;
        if docs.is_empty() || attempts.iter().any(|a| a.doc >= docs.len()) || docs.iter().any(|d| !d.sane()) {
            return Ok(None);
        }
        let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
        let dir = format!("{}/b{}", w.scratch, std::process::id());
        let res = self.go(w, &docs, &texts, &attempts, &dir);
        let _ = std::fs::remove_dir_all(&dir);
        res
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["attempts"]
    }
    fn rule(&self) -> &'static str {
        "case = 1-6 runs of the build script on 1-2 documents (generated, parts of the bundled one, or all of it) in one output directory, each with errors, short transfers, interruptions, an early end of file, a full disk or a kill at seeded calls, followed by a healthy run for every document; after every run that reports success the database is compared with that of a healthy run elsewhere, and that one, embedded in a fresh process, with what the document says. Case 0 compares the library's own default database with the bundled document. Distinct = distinct sequence of outcomes, injected faults and outputs; non-trivial = a fault was injected"
    }
    fn real(&self) -> &'static str {
        "the library's compiled build script in processes of its own, its files on a real file system; the library reading the embedded result"
    }
    fn stub(&self) -> &'static str {
        "the C library's open, read, write, close, rename and sync beneath the build script (interposed); environment of the process"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["failures are reported to the process by read, write, open, close, rename or sync; data the kernel accepted and loses later without saying so is out of reach of any check the build step could make"]
    }
}

impl Build {
    fn go(&self, w: &mut Worker, docs: &[Source], texts: &[String], attempts: &[Attempt], dir: &str) -> Run {
        let io = |e: std::io::Error| e.to_string();
        let _ = std::fs::remove_dir_all(dir);
        for d in ["assets", "out"] {
            std::fs::create_dir_all(format!("{dir}/{d}")).map_err(io)?;
            std::fs::create_dir_all(format!("{dir}/clean/{d}")).map_err(io)?;
        }
        let clean = |i: usize| Attempt { doc: i, faults: vec![], flow: None, room: None };
        // what a healthy run elsewhere makes of each document
        let mut want: Vec<Vec<u8>> = Vec::new();
        for (i, t) in texts.iter().enumerate() {
            let r = attempt(&format!("{dir}/clean"), &clean(i), t)?;
            match (r.status, r.out) {
                (Some(s), Some(o)) if s.success() => want.push(o),
                (s, _) => return Ok(Some(Violation::new("healthy-run-fails", format!("without any fault: {s:?} {}", clip(&r.err, 500))))),
            }
            let _ = std::fs::remove_file(format!("{dir}/clean/out/database.bin"));
            let says = match &docs[i] {
                Source::Model(m) => {
                    let s = docmodel::expected(m);
                    format!("{:x} {}", hash_str(&s), clip(&s, 200))
                }
                _ => self.cached(w, hash_str(t), 0, || digest_document(t))?,
            };
            if ops::HOOK {
                let b = want[i].clone();
                let got = self.cached(w, hash_str(t), bytes_hash(&b), || digest_embedded(Some(&b)))?;
                w.probe("results read back as a default database", 1);
                if got != says {
                    return Ok(Some(Violation::new("wrong-database", format!("the database made from document {i} without any fault\n  says:     {got}\n  document: {says}"))));
                }
            }
        }
        let mut sig = 0;
        let mut injected = false;
        let mut all: Vec<(Attempt, bool)> = attempts.iter().map(|a| (a.clone(), true)).collect();
        for i in 0..docs.len() {
            all.push((clean(i), false));
        }
        for (n, (a, faulty)) in all.iter().enumerate() {
            let r = attempt(dir, a, &texts[a.doc])?;
            let name = || if *faulty { format!("run {n} with {} on document {}", serde_json::to_string(a).unwrap(), a.doc) } else { format!("the healthy run afterwards on document {}", a.doc) };
            let Some(st) = r.status else {
                return Ok(Some(Violation::new("no-progress", format!("{} did not end", name()))));
            };
            let hit = r.log.lines().any(|l| !l.starts_with("count"));
            injected |= hit;
            if !w.mute {
                w.tot.processes += 1;
                for l in r.log.lines() {
                    let k = match l {
                        "kill" => "kill",
                        "short" => "short_transfer",
                        "eintr" => "read_eintr",
                        "full" => "disk_full",
                        _ if l.starts_with("fault 0") => "open_error",
                        _ if l.starts_with("fault 1 z") => "read_eof",
                        _ if l.starts_with("fault 1 s") => "read_short",
                        _ if l.starts_with("fault 1") => "read_error",
                        _ if l.starts_with("fault 2 s") => "write_short",
                        _ if l.starts_with("fault 2") => "write_error",
                        _ if l.starts_with("fault 3") => "close_error",
                        _ if l.starts_with("fault") => "sync_error",
                        _ => continue,
                    };
                    *w.tot.stats.entry(k.to_string()).or_insert(0) += 1;
                }
            }
            let same = r.out.as_ref() == Some(&want[a.doc]);
            sig = mix2(sig, mix2(st.into_raw() as u64, mix2(hash_str(&r.log), r.out.as_ref().map(|o| bytes_hash(o)).unwrap_or(0))));
            w.probe(if st.success() { "runs reporting success" } else if st.signal().is_some() { "runs killed" } else { "runs reporting failure" }, 1);
            if !hit && !st.success() {
                return Ok(Some(Violation::new("rerun-fails", format!("{}: {st:?} although nothing was injected: {}", name(), clip(&r.err, 500)))));
            }
            if st.success() && !same {
                // other bytes may still say the same
                let says = match &r.out {
                    Some(b) if ops::HOOK => {
                        let (a, b) = (digest_embedded(Some(b))?, digest_embedded(Some(&want[a.doc]))?);
                        if a == b {
                            continue;
                        }
                        a
                    }
                    _ => String::new(),
                };
                return Ok(Some(Violation::new(
                    if *faulty { "partial-database" } else { "rerun-partial" },
                    format!("{} reports success; it wrote {:?} bytes, a healthy run elsewhere {}; injected: {:?} {says}", name(), r.out.as_ref().map(|o| o.len()), want[a.doc].len(), r.log.lines().filter(|l| !l.starts_with("count")).take(5).collect::<Vec<_>>()),
                )));
            }
        }
        w.seen(sig, injected);
        let _q = sched::quiet();
        Ok(None)
    }
    fn cached(&self, w: &mut Worker, a: u64, b: u64, f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
        if let Some(s) = SEEN.with(|s| s.borrow().get(&(a, b)).cloned()) {
            return Ok(s);
        }
        let s = f()?;
        w.absorb();
        SEEN.with(|m| {
            let mut m = m.borrow_mut();
            if m.len() > 5000 {
                m.clear();
            }
            m.insert((a, b), s.clone())
        });
        Ok(s)
    }
}
fn bytes_hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) ^ mix(b.len() as u64)
}
