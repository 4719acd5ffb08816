//! C06, C07: loading metadata from sources that chunk, stall, interrupt, fail
//! and end early.
use super::*;
use crate::docmodel::{self, Doc};
use crate::fork::{self, child, ChildEnd};
use crate::worker::*;
use crate::xml;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::libcshim::{self as sys, Fault};
use simrt::sched;
use std::io::{self, BufRead, Read};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq)]
pub enum Load {
    C06,
    C07,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Source {
    Model(Doc),
    /// territories of the bundled document
    Bundled(Vec<u16>),
    /// the whole bundled document
    Full,
}
impl Source {
    pub fn text(&self) -> String {
        match self {
            Source::Model(d) => docmodel::render(d),
            Source::Bundled(c) => xml::doc_for(c),
            Source::Full => xml::full_text().to_string(),
        }
    }
    /// Minimisation may leave something that is no document.
    pub fn sane(&self) -> bool {
        match self {
            Source::Model(d) => {
                let mut ids: Vec<&String> = d.terrs.iter().map(|t| &t.id).collect();
                ids.sort();
                let n = ids.len();
                ids.dedup();
                n == ids.len() && d.terrs.iter().all(|t| t.descs.iter().any(|x| x.name == "generalDesc") && t.formats.iter().all(|f| f.attrs.iter().any(|a| a.0 == "pattern")))
            }
            _ => true,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub doc: usize,
    /// str, string, bufread, read, file, missing, dir, nul, empty
    pub via: String,
    pub seed: u64,
    /// largest chunk, 0 = unlimited
    pub chunk: u64,
    /// interruptions, 1/65536 per read
    pub eintr: u32,
    /// delays, 1/65536 per read
    pub delay: u32,
    /// capacity of the BufReader for `read`
    pub cap: u64,
    /// reader faults: (byte offset, kind, once)
    pub fail: Option<(u64, String, bool)>,
    /// file faults: (call, nth, kind)
    pub faults: Vec<(u8, u64, i64)>,
}

pub const KINDS: [&str; 12] = ["eof", "Other", "EIO", "PermissionDenied", "TimedOut", "WouldBlock", "UnexpectedEof", "InvalidData", "BrokenPipe", "ECONNRESET", "ENOSPC", "OutOfMemory"];
pub fn make_err(kind: &str) -> io::Error {
    use io::ErrorKind::*;
    match kind {
        "Other" => io::Error::other("simulated failure 4711"),
        "EIO" => io::Error::from_raw_os_error(libc::EIO),
        "PermissionDenied" => io::Error::new(PermissionDenied, "simulated permission"),
        "TimedOut" => io::Error::from(TimedOut),
        "WouldBlock" => io::Error::from(WouldBlock),
        "UnexpectedEof" => io::Error::new(UnexpectedEof, "simulated end"),
        "InvalidData" => io::Error::new(InvalidData, "simulated data"),
        "BrokenPipe" => io::Error::from(BrokenPipe),
        "ECONNRESET" => io::Error::from_raw_os_error(libc::ECONNRESET),
        "ENOSPC" => io::Error::from_raw_os_error(libc::ENOSPC),
        "OutOfMemory" => io::Error::from(OutOfMemory),
        _ => io::Error::other("?"),
    }
}

/// The simulated stream.
pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    avail: usize,
    pub rng: Rng,
    pub chunk: u64,
    pub eintr: u32,
    pub delay: u32,
    pub fail: Option<(u64, String, bool)>,
    pub failed: u64,
    pub cuts: u64,
    eof: bool,
    pub sig: u64,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], s: &Step) -> Self {
        SimReader { data, pos: 0, avail: 0, rng: Rng::new(s.seed), chunk: s.chunk, eintr: s.eintr, delay: s.delay, fail: s.fail.clone(), failed: 0, cuts: 0, eof: false, sig: 0 }
    }
    /// how much the next read may deliver
    fn next(&mut self) -> io::Result<usize> {
        sched::sys_event();
        let _q = sched::quiet();
        if self.eof {
            return Ok(0);
        }
        if self.delay > 0 && (self.rng.next() & 0xffff) < self.delay as u64 {
            drop(_q);
            std::thread::sleep(std::time::Duration::from_millis(1 + (self.rng.next() & 1023)));
            return self.next2();
        }
        self.next2()
    }
    fn next2(&mut self) -> io::Result<usize> {
        let _q = sched::quiet();
        if self.eintr > 0 && (self.rng.next() & 0xffff) < self.eintr as u64 {
            simrt::shm::stat("read_eintr");
            self.sig = self.sig.wrapping_mul(31).wrapping_add(7);
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut left = self.data.len() - self.pos;
        if let Some((at, kind, once)) = self.fail.clone() {
            let room = (at as usize).saturating_sub(self.pos);
            if room == 0 {
                if kind == "eof" {
                    simrt::shm::stat("source_eof");
                    self.eof = true;
                    self.failed += 1;
                    return Ok(0);
                }
                simrt::shm::stat("source_error");
                self.failed += 1;
                if once {
                    self.fail = None;
                }
                return Err(make_err(&kind));
            }
            left = left.min(room);
        }
        if self.chunk > 0 && left > 1 {
            let n = self.rng.range(1, self.chunk) as usize;
            if n < left {
                simrt::shm::stat("chunk_split");
                self.cuts += 1;
                left = n;
            }
        }
        self.sig = self.sig.wrapping_mul(0x100000001b3).wrapping_add(left as u64);
        Ok(left)
    }
}
impl BufRead for SimReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            self.avail = self.next()?;
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.avail, "consumed more than was offered");
        self.pos += n;
        self.avail -= n;
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.avail == 0 {
            self.avail = self.next()?;
        }
        let n = self.avail.min(b.len());
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.avail -= n;
        Ok(n)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct StepOut {
    /// digest of what was loaded; None = an error
    ok: Option<u64>,
    text: String,
    /// kind, os error, message
    io: Option<(String, Option<i32>, String)>,
    panic: Option<String>,
    /// reader: bytes taken, failures delivered
    pos: u64,
    failed: u64,
    cuts: u64,
    sig: u64,
    opened: u64,
    closed: u64,
    read_fault_at: Option<u64>,
    fired: Vec<u64>,
}

fn step_run(s: &Step, text: &str, keep: bool) -> StepOut {
    let mut o = StepOut::default();
    let mut rd = SimReader::new(text.as_bytes(), s);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s.via.as_str() {
        "str" => ops::load_str(text),
        "bufread" => ops::load_reader(&mut rd),
        "read" => ops::load_reader(io::BufReader::with_capacity(s.cap.max(1) as usize, &mut rd)),
        _ => {
            let f: Vec<Fault> = s.faults.iter().map(|f| Fault { call: f.0, nth: f.1, kind: f.2 }).collect();
            sys::fs_arm(s.seed, &f, s.chunk, s.eintr);
            let r = match s.via.as_str() {
                "missing" => ops::load_path("doc-missing.xml"),
                "dir" => ops::load_path(std::path::PathBuf::from("docdir")),
                "nul" => ops::load_path("doc\0.xml"),
                "empty" => ops::load_path("docempty.xml"),
                _ => ops::load_path(format!("doc{}.xml", s.doc)),
            };
            r
        }
    }));
    let _q = sched::quiet();
    o.pos = rd.pos as u64;
    o.failed = rd.failed;
    o.cuts = rd.cuts;
    o.sig = rd.sig;
    if !matches!(s.via.as_str(), "str" | "bufread" | "read") {
        let a = sys::fs_report();
        o.opened = a.opened;
        o.closed = a.closed;
        o.fired = a.fired.to_vec();
        if a.first_read_fault != u64::MAX {
            o.read_fault_at = Some(a.first_read_fault);
        }
        o.sig = a.rng ^ a.n[1];
        o.cuts = a.n[1];
    }
    match r {
        Ok(Ok(d)) => {
            // describing the result is the harness's business
            let t = ops::db_digest(&d);
            o.ok = Some(hash_str(&t));
            if keep {
                o.text = t;
            }
        }
        Ok(Err(e)) => {
            o.text = e.text;
            o.io = e.io.map(|(k, c, m)| (format!("{k:?}"), c, m));
        }
        Err(p) => o.panic = Some(format!("{} at {}", ops::panic_text(p), fork::last_panic())),
    }
    o
}

/// A byte at which a source may end or fail: anywhere, or where an element does.
pub fn cut_at(r: &mut Rng, text: &str) -> u64 {
    let n = text.len() as u64;
    let at = r.below(n + 1);
    match r.below(8) {
        0 => r.below(40.min(n)),
        1 => n.saturating_sub(r.below(40)),
        2 => (*r.pick(&[0, 1, 8191, 8192, 8193])).min(n),
        3 | 4 => {
            // just before, at or after the end of a tag
            let e = text.as_bytes()[at as usize..].iter().position(|b| *b == b'>').map_or(n, |i| at + i as u64);
            (e + r.below(3)).min(n)
        }
        5 => {
            // between two territories or groups of them
            let ends = ["</territory>", "</territories>", "<territories>", "</references>", "</availableFormats>", "</numberFormat>"];
            let e = *r.pick(&ends);
            let e = text.get(..).and_then(|t| (at as usize..t.len()).find(|i| t.is_char_boundary(*i)).and_then(|i| t[i..].find(e).or_else(|| t.find(e).map(|j| j.wrapping_sub(i))).map(|j| i.wrapping_add(j) + e.len())));
            e.map_or(at, |e| e as u64 + r.below(2)).min(n)
        }
        _ => at,
    }
}

fn gen_step(r: &mut Rng, docs: &[String], fault: bool) -> Step {
    let doc = r.below(docs.len() as u64) as usize;
    let mut s = Step { doc, seed: r.next() & 0xffff_ffff, ..Default::default() };
    s.chunk = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 7,
        3 => r.log(1, 64),
        4 => r.log(1, 10_000),
        5 => 8192,
        _ => 0,
    };
    s.eintr = *r.pick(&[0, 0, 1000, 8000, 20000, 45000]);
    s.delay = *r.pick(&[0, 0, 0, 2000]);
    s.cap = *r.pick(&[1, 2, 3, 16, 100, 4096, 8192]);
    s.via = r.pick(&["str", "bufread", "bufread", "read", "read", "file", "file"]).to_string();
    let n = docs[doc].len() as u64;
    // keep the number of calls bounded
    if s.chunk > 0 {
        s.chunk = s.chunk.max(n / 8000);
    }
    s.cap = s.cap.max(n / 8000);
    if n > 200_000 {
        s.chunk = if s.chunk > 0 { s.chunk.max(512) } else { 0 };
        s.cap = s.cap.max(512);
        s.delay = 0;
    }
    if !fault {
        return s;
    }
    match s.via.as_str() {
        "str" => {
            s.via = "bufread".into();
        }
        "file" if r.chance(1, 8) => {
            s.via = r.pick(&["missing", "dir", "nul", "empty"]).to_string();
            return s;
        }
        _ => {}
    }
    if s.via == "file" {
        for _ in 0..r.range(1, 2) {
            let reads = if s.chunk > 0 { n * 2 / s.chunk + 1 } else { n / 8192 + 1 };
            s.faults.push(match r.below(10) {
                0 | 1 => (sys::C_OPEN, 0, *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::EINTR, libc::ENOMEM]) as i64),
                2..=5 => (sys::C_READ, r.below(reads + 1), *r.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EBADF, libc::ENOMEM, libc::ETIMEDOUT]) as i64),
                6 => (sys::C_READ, r.below(reads + 1), libc::EINTR as i64),
                7 | 8 => (sys::C_READ, r.below(reads + 1), 0),
                _ => (*r.pick(&[sys::C_CLOSE, sys::C_STAT, sys::C_SEEK]), 0, libc::EIO as i64),
            });
        }
    } else {
        let at = cut_at(r, &docs[doc]);
        let kinds: &[&str] = if r.chance(1, 3) { &KINDS[..1] } else { &KINDS };
        let kind = r.pick(kinds).to_string();
        s.fail = Some((at, kind, r.chance(1, 3)));
    }
    s
}

impl Prop for Load {
    fn id(&self) -> &'static str {
        match self {
            Load::C06 => "C06",
            Load::C07 => "C07",
        }
    }
    fn cfg(&self, r: &mut Rng, _k: usize, _round: usize) -> Cfg {
        Cfg { codes: Some(subset(r, 1)), varied: 0, cold: false }
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let nd = r.range(1, 2);
        let mut docs = Vec::new();
        for _ in 0..nd {
            docs.push(match r.below(12) {
                0..=8 => Source::Model(docmodel::gen(r)),
                _ => {
                    let n = r.range(1, 2) as usize;
                    Source::Bundled(subset(r, n))
                }
            });
        }
        if idx % 150 == 20 && w.tier == "thorough" {
            docs = vec![Source::Full];
        }
        let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
        let big = texts.iter().any(|l| l.len() > 200_000);
        let nt = if big || r.chance(2, 3) { 1 } else { r.range(2, 3) };
        let mut threads = Vec::new();
        for _ in 0..nt {
            let k = if big { 2 } else if *self == Load::C06 { r.range(1, 4) } else { r.range(1, 10) };
            let mut v = Vec::new();
            for _ in 0..k {
                let fault = *self == Load::C07 && r.chance(4, 5);
                v.push(gen_step(r, &texts, fault));
            }
            if *self == Load::C07 {
                // from a healthy source it works again
                let mut s = gen_step(r, &texts, false);
                s.chunk = 0;
                v.push(s);
            }
            threads.push(v);
        }
        let mut plan = super::conc::random_plan(r, 40_000 * nt, nt as usize);
        plan.soft_budget = 150_000_000;
        plan.hard_budget = 200_000_000;
        Some(json!({"docs": docs, "threads": threads, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }

    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let docs: Vec<Source> = serde_json::from_value(case["docs"].clone()).map_err(|e| e.to_string())?;
        let threads: Vec<Vec<Step>> = serde_json::from_value(case["threads"].clone()).map_err(|e| e.to_string())?;
        let plan = plan_from(&case["plan"]);
        if docs.iter().any(|d| !d.sane()) || threads.is_empty() || threads.iter().flatten().any(|s| s.doc >= docs.len()) {
            return Ok(None);
        }
        let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
        // what each document says
        let mut expect: Vec<String> = Vec::new();
        for (d, t) in docs.iter().zip(&texts) {
            expect.push(match d {
                Source::Model(m) => docmodel::expected(m),
                _ => w.reference(&ops::Op::Load { doc: 0 }, &[], &[t.clone()]).text,
            });
        }
        let dir = w.scratch.clone();
        for (i, t) in texts.iter().enumerate() {
            std::fs::write(format!("{dir}/doc{i}.xml"), t).map_err(|e| e.to_string())?;
        }
        std::fs::create_dir_all(format!("{dir}/docdir")).map_err(|e| e.to_string())?;
        std::fs::write(format!("{dir}/docempty.xml"), b"").map_err(|e| e.to_string())?;
        let (env, heap) = (case["env"].as_u64().unwrap_or(0), case["heap"].as_u64().unwrap_or(0) as u8);
        let (t2, x2, e2) = (threads.clone(), texts.clone(), expect.clone());
        let policy = plan.policy;
        let c = child(60, move || {
            std::env::set_current_dir(&dir).unwrap();
            simrt::alloc::MODE.store(heap, Ordering::Relaxed);
            sys::env_init(env);
            sys::fs_start("doc");
            let texts: &'static Vec<String> = Box::leak(Box::new(x2.clone()));
            let hashes: Vec<u64> = e2.iter().map(|e| hash_str(e)).collect();
            let res: &'static mut Vec<Vec<Option<StepOut>>> = Box::leak(Box::new(t2.iter().map(|t| vec![None; t.len()]).collect()));
            let base = res.as_mut_ptr() as usize;
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
            for (i, t) in t2.iter().enumerate() {
                let t = t.clone();
                let hashes = hashes.clone();
                bodies.push(Box::new(move || {
                    for (j, s) in t.iter().enumerate() {
                        let mut r = step_run(s, &texts[s.doc], true);
                        let _q = sched::quiet();
                        if r.ok == Some(hashes[s.doc]) {
                            r.text.clear();
                        }
                        unsafe { (&mut (*(base as *mut Vec<Option<StepOut>>).add(i)))[j] = Some(r) };
                    }
                }));
            }
            let o = sched::run(plan, bodies);
            json!({"end": end_text(o.end), "hash": o.hash, "switches": o.switches, "ns": o.sim_ns, "res": res, "per": o.per_thread}).to_string()
        });
        let acts = sched::actions();
        w.absorb();
        let viol = |class: &str, msg: String| {
            let mut v = Violation::new(class, msg);
            let mut p = plan_from(&case["plan"]);
            if p.policy != 0 && acts.len() < 20_000 {
                p.policy = 0;
                p.script = acts.clone();
                let mut c = case.clone();
                c["plan"] = plan_json(&p);
                v.refined = Some(c);
            }
            Ok(Some(v))
        };
        let t = match c {
            ChildEnd::Ok(t) => t,
            ChildEnd::Signal(s) => {
                let (cl, m) = fork::signal_class(s);
                return viol(cl, m);
            }
            ChildEnd::Harness(m) => return Err(m),
        };
        let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
        if v["end"] != "done" {
            return viol("no-progress", format!("{}; per thread (events, shared events, finished): {}", v["end"], v["per"]));
        }
        let res: Vec<Vec<Option<StepOut>>> = serde_json::from_value(v["res"].clone()).map_err(|e| e.to_string())?;
        let mut sig = v["hash"].as_u64().unwrap_or(0);
        let mut nontrivial = threads.len() > 1 && (v["switches"].as_u64().unwrap_or(0) > threads.len() as u64 || policy == 0);
        let mut failures = 0;
        let mut found = None;
        for (i, t) in threads.iter().enumerate() {
            for (j, s) in t.iter().enumerate() {
                let Some(o) = &res[i][j] else { return Err("missing result".into()) };
                sig = simrt::rng::mix2(sig ^ hash_str(&texts[s.doc]), o.sig ^ hash_str(&s.via) ^ o.pos);
                nontrivial |= o.cuts > 0 || o.failed > 0 || !s.faults.is_empty();
                if let Some(m) = judge(s, o, texts[s.doc].len(), docmodel::root_end(&texts[s.doc]), &expect[s.doc]) {
                    found.get_or_insert((m.0, format!("thread {} step {}: {:?}: {}", i + 1, j, s, m.1)));
                }
                if o.ok.is_none() {
                    failures += 1;
                }
            }
        }
        if !w.mute {
            w.tot.sim_ns += v["ns"].as_u64().unwrap_or(0);
            w.seen(sig, nontrivial);
            w.probe("loads", threads.iter().map(|t| t.len() as u64).sum());
            w.probe("loads reported as failed", failures);
        }
        match found {
            Some((c, m)) => viol(c, m),
            None => Ok(None),
        }
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["threads", "terrs", "descs", "formats", "attrs", "leading", "refs", "faults", "script", "Bundled"]
    }
    fn rule(&self) -> &'static str {
        match self {
            Load::C06 => "case = 1-2 documents (generated from an abstract model in a random rendering, or territories of the bundled document) loaded 1-4 times by 1-3 simulated threads from strings, buffered readers, unbuffered readers and files with seeded chunk sizes, interruptions and delays. Distinct = distinct combination of document, read boundaries/interruptions and schedule; non-trivial = at least one read boundary inside the document or an interleaving",
            Load::C07 => "case = 1-2 documents, 1-3 simulated threads, each 1-10 loads with an error or end of file at a seeded byte or system call (open, read, stat, seek, close), then a load from a healthy source. Distinct = distinct combination of document, fault position and kind, read boundaries and schedule; non-trivial = a fault or a read boundary occurred",
        }
    }
    fn real(&self) -> &'static str {
        "phonenumber loader and Database (instrumented build of /repo), quick-xml, regex, std file and BufReader code"
    }
    fn stub(&self) -> &'static str {
        "the reader handed in, open/read/pread/readv/fstat/lseek/close below std, clock and sleeping, choice of the running thread"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a fault that strikes after the root element's end tag has been delivered may go unnoticed", "the file is read through open/read-family calls (not mmap)"]
    }
}

/// None = as it must be.
fn judge(s: &Step, o: &StepOut, len: usize, end: usize, expect: &str) -> Option<(&'static str, String)> {
    if let Some(p) = &o.panic {
        return Some(("panic", format!("panicked: {p}")));
    }
    if o.opened != o.closed {
        return Some(("descriptor-leak", format!("{} files opened, {} closed", o.opened, o.closed)));
    }
    let ok_full = o.ok == Some(hash_str(expect));
    // a clean delivery?
    #[derive(PartialEq)]
    enum Must {
        Full,
        Err,
        ErrIo(String, Option<i32>),
        /// the complete database, or the failure
        FullOrErr(Option<i32>),
    }
    let must = match s.via.as_str() {
        "str" => Must::Full,
        "bufread" | "read" => match &s.fail {
            None => Must::Full,
            Some((at, kind, _)) => {
                if o.failed == 0 {
                    if (*at as usize) < end && o.ok.is_some() {
                        // it claims success without having seen the rest
                        Must::Err
                    } else {
                        Must::FullOrErr(None)
                    }
                } else if (*at as usize) < end {
                    if kind == "eof" {
                        Must::Err
                    } else {
                        let e = make_err(kind);
                        Must::ErrIo(format!("{:?}", e.kind()), e.raw_os_error())
                    }
                } else if kind == "eof" {
                    Must::Full
                } else {
                    Must::FullOrErr(None)
                }
            }
        },
        "missing" => Must::ErrIo("NotFound".into(), Some(libc::ENOENT)),
        "dir" => Must::ErrIo("IsADirectory".into(), Some(libc::EISDIR)),
        "nul" => Must::ErrIo("InvalidInput".into(), None),
        "empty" => Must::Err,
        _ => {
            let fired = |c: u8| o.fired.get(c as usize).copied().unwrap_or(0) > 0;
            let kind = |c: u8| s.faults.iter().find(|f| f.0 == c && !(c == sys::C_READ && (f.2 < 0 || f.2 == libc::EINTR as i64))).map(|f| f.2 as i32);
            if fired(sys::C_OPEN) && kind(sys::C_OPEN) != Some(libc::EINTR) {
                Must::ErrIo(String::new(), kind(sys::C_OPEN))
            } else if let Some(b) = o.read_fault_at {
                // several read faults: which one came first is in the order of nth
                let mut f: Vec<_> = s.faults.iter().filter(|f| f.0 == sys::C_READ && f.2 != libc::EINTR as i64 && f.2 >= 0).collect();
                f.sort_by_key(|f| f.1);
                let k = f[0].2 as i32;
                if (b as usize) < end {
                    if k == 0 {
                        Must::Err
                    } else {
                        Must::ErrIo(String::new(), Some(k))
                    }
                } else {
                    Must::FullOrErr(None)
                }
            } else if fired(sys::C_STAT) || fired(sys::C_SEEK) || fired(sys::C_CLOSE) {
                Must::FullOrErr(None)
            } else {
                Must::Full
            }
        }
    };
    let shown = || {
        if o.ok.is_some() {
            format!("loaded something else:\n  {}\n  instead of\n  {}", diff(&o.text, expect), "")
        } else {
            format!("error {:?} (io {:?})", o.text, o.io)
        }
    };
    match must {
        Must::Full if !ok_full => Some((if o.ok.is_some() { "wrong-content" } else { "rejected" }, format!("the complete document was delivered ({len} bytes) but: {}", shown()))),
        Must::Err if o.ok.is_some() => Some(("partial-database", format!("the source ended or failed before the document was complete, but a database was returned ({})", if ok_full { "complete" } else { "not the document's" }))),
        Must::ErrIo(k, c) => {
            if o.ok.is_some() {
                return Some(("partial-database", format!("the source failed ({k} {c:?}) before the document was complete, but a database was returned")));
            }
            match &o.io {
                None => Some(("failure-not-carried", format!("the source failed ({k} {c:?}) but the error does not carry it: {}", o.text))),
                Some((k2, c2, m)) => {
                    if (!k.is_empty() && *k != *k2) || (c.is_some() && *c2 != c) {
                        Some(("failure-not-carried", format!("the source failed with ({k} {c:?}) but the error carries ({k2} {c2:?} {m})")))
                    } else {
                        None
                    }
                }
            }
        }
        Must::FullOrErr(_) => {
            if o.ok.is_some() && !ok_full {
                Some(("partial-database", shown()))
            } else if o.ok.is_none() && o.failed == 0 && o.fired.iter().sum::<u64>() == 0 {
                Some(("rejected", shown()))
            } else {
                None
            }
        }
        _ => None,
    }
}

pub fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("got  {}\n  want {}", clip(x, 600), clip(y, 600));
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}
