//! C10: the code a caller supplies panics, or calls back into the library.
use super::common::*;
use super::*;
use crate::worker::*;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use simrt::rng::mix2;
use simrt::sched;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Callback;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Call {
    pub op: Option<Op>,
    /// plain, asref, sink, reader, path, key, writer, source, hasher
    pub via: String,
    /// the invocation of the callback at which it acts
    pub nth: u64,
    /// calls it makes first
    pub reenter: Vec<Call>,
    /// 0 returns, 1 panics with a value, 2 with a message, 3 resumes an unwinding
    pub panic: u8,
    pub mark: u64,
    /// 0 plainly, 1 from a destructor while unwinding, 2 from a destructor of a
    /// thread-local made now, 3 of one made before anything else
    pub ctx: u8,
    pub chunk: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Rec {
    text: String,
    fired: bool,
    /// payload, if the call panicked
    panicked: Option<String>,
    nested: Vec<Rec>,
    invoked: u64,
}

struct Marker(u64);

struct Fuse {
    c: &'static Ctx,
    call: &'static Call,
    n: Cell<u64>,
    fired: Cell<bool>,
    nested: RefCell<Vec<Rec>>,
}
impl Fuse {
    fn new(c: &'static Ctx, call: &'static Call) -> Fuse {
        Fuse { c, call, n: Cell::new(0), fired: Cell::new(false), nested: RefCell::new(Vec::new()) }
    }
    /// The library has called out.
    fn hit(&self) {
        sched::sys_event();
        let k = self.n.get();
        self.n.set(k + 1);
        if k != self.call.nth || (self.call.reenter.is_empty() && self.call.panic == 0) {
            return;
        }
        self.fired.set(true);
        for x in &self.call.reenter {
            simrt::shm::stat("callback_reentry");
            let r = run_call(self.c, x);
            let _q = sched::quiet();
            self.nested.borrow_mut().push(r);
        }
        if self.call.panic > 0 {
            simrt::shm::stat("callback_panic");
        }
        match self.call.panic {
            0 => {}
            1 => std::panic::panic_any(Marker(self.call.mark)),
            2 => panic!("caller's panic {}", self.call.mark),
            _ => std::panic::resume_unwind(Box::new(Marker(self.call.mark))),
        }
    }
}

struct FStr<'a>(&'a str, &'a Fuse);
impl AsRef<str> for FStr<'_> {
    fn as_ref(&self) -> &str {
        self.1.hit();
        self.0
    }
}
struct FPath<'a>(std::path::PathBuf, &'a Fuse);
impl AsRef<std::path::Path> for FPath<'_> {
    fn as_ref(&self) -> &std::path::Path {
        self.1.hit();
        &self.0
    }
}
struct FSink<'a>(String, &'a Fuse);
impl fmt::Write for FSink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.hit();
        let _q = sched::quiet();
        self.0.push_str(s);
        Ok(())
    }
}
struct FWriter<'a>(Vec<u8>, &'a Fuse);
impl io::Write for FWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1.hit();
        let _q = sched::quiet();
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct FReader<'a> {
    d: &'a [u8],
    pos: usize,
    chunk: usize,
    f: &'a Fuse,
}
impl io::Read for FReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.f.hit();
        let n = (self.d.len() - self.pos).min(b.len()).min(self.chunk);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::BufRead for FReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.f.hit();
        let n = (self.d.len() - self.pos).min(self.chunk);
        Ok(&self.d[self.pos..self.pos + n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
struct FHasher<'a>(ops::Fnv, &'a Fuse);
impl Hasher for FHasher<'_> {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.1.hit();
        self.0.write(b)
    }
}

// keys of the caller's own type; which call they belong to is known per thread
thread_local! {
    static FUSE: Cell<*const Fuse> = const { Cell::new(std::ptr::null()) };
}
fn key_hit() {
    let f = FUSE.with(|f| f.get());
    if !f.is_null() {
        // nested calls set their own
        unsafe { (*f).hit() };
        FUSE.with(|x| x.set(f));
    }
}
#[repr(transparent)]
struct KeyS(str);
impl Hash for KeyS {
    fn hash<H: Hasher>(&self, h: &mut H) {
        key_hit();
        self.0.hash(h)
    }
}
impl PartialEq for KeyS {
    fn eq(&self, o: &KeyS) -> bool {
        key_hit();
        self.0 == o.0
    }
}
impl Eq for KeyS {}
fn keys(s: &str) -> &KeyS {
    unsafe { &*(s as *const str as *const KeyS) }
}
impl Borrow<KeyS> for String {
    fn borrow(&self) -> &KeyS {
        keys(self)
    }
}
#[repr(transparent)]
struct KeyC(u16);
impl Hash for KeyC {
    fn hash<H: Hasher>(&self, h: &mut H) {
        key_hit();
        self.0.hash(h)
    }
}
impl PartialEq for KeyC {
    fn eq(&self, o: &KeyC) -> bool {
        key_hit();
        self.0 == o.0
    }
}
impl Eq for KeyC {}
impl Borrow<KeyC> for u16 {
    fn borrow(&self) -> &KeyC {
        unsafe { &*(self as *const u16 as *const KeyC) }
    }
}

struct Late(UnsafeCell<Vec<Vec<Option<Rec>>>>);
struct Ctx {
    world: World,
    threads: Vec<Vec<Call>>,
    late: Late,
    after: Vec<Op>,
}

fn load_text(r: Result<ops::phonenumber::metadata::Database, ops::LoadErr>) -> String {
    match r {
        Ok(d) => ops::db_digest(&d),
        Err(e) => format!("Err {}", e.text),
    }
}

/// The call itself, with the callback in place.
fn exec(w: &World, op: &Op, call: &Call, f: &Fuse) -> String {
    let show = |n: &ops::phonenumber::PhoneNumber| {
        let _q = sched::quiet();
        format!("{n:?}")
    };
    let chunk = call.chunk.max(1) as usize;
    match (call.via.as_str(), op) {
        ("asref", Op::Parse { db, hint, s }) => {
            let a = FStr(s, f);
            let r = match db {
                0 => ops::phonenumber::parse(ops::hint(hint), a),
                d => ops::phonenumber::parse_with(ops::db(w, *d), ops::hint(hint), a),
            };
            let _q = sched::quiet();
            format!("{r:?}")
        }
        ("asref", Op::All { db, hint, s }) => {
            let a = FStr(s, f);
            let r = match db {
                0 => ops::phonenumber::parse(ops::hint(hint), &a),
                d => ops::phonenumber::parse_with(ops::db(w, *d), ops::hint(hint), &a),
            };
            match r {
                Ok(n) => {
                    let u = ops::use_number(w, *db, &n);
                    format!("{} {}", show(&n), u)
                }
                Err(e) => format!("Err {e:?} {e}"),
            }
        }
        ("asref", Op::Viable { s }) => ops::phonenumber::is_viable(FStr(s, f)).to_string(),
        ("asref", Op::Load { doc }) => match ops::phonenumber::metadata::Database::parse(FStr(&w.docs[*doc], f)) {
            Ok(d) => ops::db_digest(&d),
            Err(e) => format!("Err {e}"),
        },
        ("path", Op::Load { doc }) => load_text(ops::load_path(FPath(format!("doc{doc}.xml").into(), f))),
        ("reader", Op::Load { doc }) => {
            let r = FReader { d: w.docs[*doc].as_bytes(), pos: 0, chunk, f };
            load_text(if call.chunk % 2 == 0 { ops::load_reader(r) } else { ops::load_reader(io::BufReader::with_capacity(chunk, r)) })
        }
        ("sink", Op::Format { db, n, mode }) => {
            let n = ops::number(n);
            let mut s = FSink(String::new(), f);
            let m = ops::mode(*mode);
            let r = match db {
                0 => write!(s, "{}", n.format().mode(m)),
                d => write!(s, "{}", n.format_with(ops::db(w, *d)).mode(m)),
            };
            match r {
                Ok(()) => s.0,
                Err(_) => format!("fmt::Error after {:?}", s.0),
            }
        }
        ("sink", Op::Display { n }) => {
            let n = ops::number(n);
            let mut s = FSink(String::new(), f);
            match write!(s, "{}", n) {
                Ok(()) => s.0,
                Err(_) => format!("fmt::Error after {:?}", s.0),
            }
        }
        ("key", Op::ById { db, id }) => {
            FUSE.with(|x| x.set(f));
            match ops::db(w, *db).by_id(keys(id)) {
                Some(m) => {
                    FUSE.with(|x| x.set(std::ptr::null()));
                    ops::meta_digest(m)
                }
                None => "none".into(),
            }
        }
        ("key", Op::ByCode { db, code }) => {
            FUSE.with(|x| x.set(f));
            match ops::db(w, *db).by_code(&KeyC(*code)) {
                Some(v) => {
                    FUSE.with(|x| x.set(std::ptr::null()));
                    v.iter().map(|m| ops::meta_digest(m)).collect::<Vec<_>>().join("\n")
                }
                None => "none".into(),
            }
        }
        ("key", Op::Region { db, code }) => {
            FUSE.with(|x| x.set(f));
            let r = ops::db(w, *db).region(&KeyC(*code));
            format!("{r:?}")
        }
        ("writer", Op::Serde { n, fmt }) => {
            let n = ops::number(n);
            let mut v = FWriter(Vec::new(), f);
            match ops::encode_writer(&mut v, &n, *fmt).and_then(|_| ops::decode(&v.0, *fmt)) {
                Ok(n) => show(&n),
                Err(e) => format!("Err {e}"),
            }
        }
        ("source", Op::Serde { n, fmt }) => {
            let n = ops::number(n);
            let b = ops::encode(&n, *fmt).unwrap_or_default();
            match ops::decode_reader(FReader { d: &b, pos: 0, chunk, f }, *fmt) {
                Ok(n) => show(&n),
                Err(e) => format!("Err {e}"),
            }
        }
        ("hasher", Op::Eq { a, b }) => {
            let (a, b) = (ops::number(a), ops::number(b));
            let h = |n: &ops::phonenumber::PhoneNumber| {
                let mut h = FHasher(ops::Fnv(0xcbf29ce484222325), f);
                n.hash(&mut h);
                h.finish()
            };
            format!("{} {:x} {:x}", a == b, h(&a), h(&b))
        }
        _ => ops::run_op(w, op),
    }
}

fn run_call(c: &'static Ctx, call: &'static Call) -> Rec {
    let Some(op) = &call.op else { return Rec::default() };
    let f = Fuse::new(c, call);
    let saved = FUSE.try_with(|x| x.replace(std::ptr::null())).unwrap_or(std::ptr::null());
    let r = catch_unwind(AssertUnwindSafe(|| exec(&c.world, op, call, &f)));
    let _q = sched::quiet();
    let _ = FUSE.try_with(|x| x.set(saved));
    let mut rec = Rec { fired: f.fired.get(), nested: f.nested.take(), invoked: f.n.get(), ..Default::default() };
    match r {
        Ok(t) => rec.text = t,
        Err(p) => {
            let name = match p.downcast_ref::<Marker>() {
                Some(m) => format!("marker {}", m.0),
                None => ops::panic_text(p),
            };
            rec.text = format!("PANIC {name}");
            rec.panicked = Some(name);
        }
    }
    rec
}

struct AtExit(RefCell<Vec<(usize, usize, usize)>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        for (c, t, j) in self.0.take() {
            let c: &'static Ctx = unsafe { &*(c as *const Ctx) };
            simrt::shm::stat("tls_teardown");
            let r = run_call(c, &c.threads[t][j]);
            let _q = sched::quiet();
            unsafe { (&mut *c.late.0.get())[t][j] = Some(r) };
        }
    }
}
thread_local! {
    static EARLY: AtExit = const { AtExit(RefCell::new(Vec::new())) };
    static LATER: AtExit = const { AtExit(RefCell::new(Vec::new())) };
}

fn body(c: &'static Ctx, t: usize, j: usize) -> Rec {
    if j == 0 {
        for (k, x) in c.threads[t].iter().enumerate() {
            if x.ctx == 3 {
                EARLY.with(|e| e.0.borrow_mut().push((c as *const Ctx as usize, t, k)));
            }
        }
    }
    let call = &c.threads[t][j];
    match call.ctx {
        2 => {
            LATER.with(|e| e.0.borrow_mut().push((c as *const Ctx as usize, t, j)));
            Rec::default()
        }
        3 => Rec::default(),
        1 => {
            struct Inside<'a>(&'static Ctx, &'static Call, &'a mut Option<Rec>);
            impl Drop for Inside<'_> {
                fn drop(&mut self) {
                    simrt::shm::stat("unwind_context");
                    *self.2 = Some(run_call(self.0, self.1));
                }
            }
            let mut out = None;
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _i = Inside(c, call, &mut out);
                std::panic::resume_unwind(Box::new(Marker(0)));
            }));
            out.unwrap_or_default()
        }
        _ => run_call(c, call),
    }
}

#[derive(Serialize, Deserialize)]
struct Post {
    late: Vec<Vec<Option<Rec>>>,
    after: Vec<String>,
}
fn post(c: &'static Ctx) -> Post {
    let after = c.after.iter().map(|o| ops::run_op(&c.world, o)).collect();
    Post { late: unsafe { (*c.late.0.get()).clone() }, after }
}

fn all_ops(v: &[Call], out: &mut Vec<Op>) {
    for c in v {
        if let Some(o) = &c.op {
            if !out.contains(o) {
                out.push(o.clone());
            }
        }
        all_ops(&c.reenter, out);
    }
}

struct Gen<'a> {
    ins: Vec<(String, Option<String>)>,
    dbs: &'a [String],
    docs: &'a [String],
    nums: Vec<String>,
    mark: u64,
}
impl Gen<'_> {
    fn call(&mut self, w: &mut Worker, r: &mut Rng, depth: u32, quiet: bool) -> Call {
        let db = if self.dbs.is_empty() || r.chance(1, 2) { r.below(2) as usize } else { 2 };
        let (s, hint) = r.pick(&self.ins).clone();
        let n = r.pick(&self.nums).clone();
        let (op, via) = match r.below(14) {
            0 | 1 => (Op::Parse { db, hint, s }, "asref"),
            2 | 3 => (Op::All { db, hint, s }, "asref"),
            4 => (Op::Viable { s }, "asref"),
            5 | 6 => (Op::Load { doc: r.below(self.docs.len() as u64) as usize }, *r.pick(&["asref", "reader", "reader", "path"])),
            7..=9 => {
                if r.chance(1, 6) {
                    (Op::Display { n }, "sink")
                } else {
                    (Op::Format { db, n, mode: r.below(4) as u8 }, "sink")
                }
            }
            10 => match r.below(3) {
                0 => (Op::ById { db, id: w.pool.region(r) }, "key"),
                1 => (Op::ByCode { db, code: w.pool.code(r) }, "key"),
                _ => (Op::Region { db, code: w.pool.code(r) }, "key"),
            },
            11 => (Op::Serde { n, fmt: *r.pick(&[0, 2, 3]) }, *r.pick(&["writer", "source"])),
            12 => (Op::Eq { a: n, b: r.pick(&self.nums).clone() }, "hasher"),
            _ => (super::conc::focused_op(w, r, &None, &self.ins.clone(), self.dbs, self.docs), "plain"),
        };
        let mut c = Call { op: Some(op), via: via.into(), chunk: r.log(1, 400), ..Default::default() };
        c.nth = match via {
            "asref" | "path" => r.below(2) * r.below(2) * r.below(3),
            "reader" => {
                let n = 2 + self.docs[0].len() as u64 / c.chunk;
                r.below(n)
            }
            _ => r.below(2) * r.below(12),
        };
        c.mark = self.mark;
        self.mark += 1;
        if quiet || via == "plain" {
            return c;
        }
        match r.below(8) {
            0 => {}
            1..=3 => c.panic = r.range(1, 3) as u8,
            k => {
                let m = r.range(1, 2);
                for _ in 0..m {
                    let q = depth >= 2 || r.chance(1, 3);
                    c.reenter.push(self.call(w, r, depth + 1, q));
                }
                if k == 7 {
                    c.panic = r.range(1, 3) as u8;
                }
            }
        }
        c
    }
}

fn judge(w: &mut Worker, c: &Call, g: &Rec, dbs: &[String], docs: &[String]) -> Option<(&'static str, String)> {
    let op = c.op.as_ref()?;
    let name = || format!("{op:?} via \"{}\"", c.via);
    let want_panic = g.fired && c.panic > 0;
    if g.fired && g.nested.len() != c.reenter.len() {
        return Some(("lost-callback", format!("{}: {} of {} re-entrant calls were made", name(), g.nested.len(), c.reenter.len())));
    }
    for (x, y) in c.reenter.iter().zip(&g.nested) {
        if let Some((cl, m)) = judge(w, x, y, dbs, docs) {
            return Some((if cl == "wrong-result" { "wrong-result-inside" } else { cl }, format!("inside the callback of {}: {m}", name())));
        }
    }
    if want_panic {
        let want = if c.panic == 2 { format!("caller's panic {}", c.mark) } else { format!("marker {}", c.mark) };
        return match &g.panicked {
            Some(p) if *p == want => None,
            Some(p) => Some(("payload-changed", format!("{}: the callback panicked with {want:?}, the caller received {p:?}", name()))),
            None => Some(("panic-swallowed", format!("{}: the callback panicked with {want:?}, the call returned {}", name(), clip(&g.text, 300)))),
        };
    }
    let want = w.reference(op, dbs, docs).text;
    if want != g.text {
        return Some(("wrong-result", format!("{}: returned {}, alone it returns {}", name(), clip(&g.text, 400), clip(&want, 400))));
    }
    None
}

impl Prop for Callback {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn cfg(&self, r: &mut Rng, k: usize, round: usize) -> Cfg {
        default_cfg(r, k, round, k % 4 == 3)
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value> {
        let cap = (20 + idx / 8).min(600);
        let ins = super::conc::inputs(w, r, cap);
        let mut dbs = Vec::new();
        if r.chance(1, 2) {
            let mut q = Rng::new(mix2(w.seed ^ 0xdb, r.below(12)));
            dbs.push(super::conc::custom_db(w, &mut q));
        }
        let mut docs = Vec::new();
        let mut q = Rng::new(mix2(w.seed ^ 0xd0c, r.below(6)));
        docs.push(super::conc::custom_db(w, &mut q));
        if r.chance(1, 4) {
            // one that is refused
            let n = docs[0].len();
            let mut d = docs[0].clone();
            d.truncate(n / 2);
            docs.push(d);
        }
        let nums: Vec<String> = (0..3).map(|_| super::sink::gen_number(w, r, &dbs)).collect();
        let nt = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
        let mut threads = Vec::new();
        let mut g = Gen { ins, dbs: &dbs, docs: &docs, nums, mark: 1 };
        for _ in 0..nt {
            let mut v = Vec::new();
            for _ in 0..r.range(2, 8) {
                let q = r.chance(1, 5);
                let mut c = g.call(w, r, 0, q);
                c.ctx = match r.below(10) {
                    0 | 1 => 1,
                    2 => 2,
                    3 => 3,
                    _ => 0,
                };
                v.push(c);
            }
            threads.push(v);
        }
        let mut plan = super::conc::random_plan(r, 150_000 * nt, nt as usize);
        budget(&mut plan, 200_000_000);
        Some(json!({"dbs": dbs, "docs": docs, "threads": threads, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let dbs: Vec<String> = from_case(case, "dbs")?;
        let docs: Vec<String> = from_case(case, "docs")?;
        let threads: Vec<Vec<Call>> = from_case(case, "threads")?;
        let lens: Vec<usize> = threads.iter().map(|t| t.len()).collect();
        if lens.iter().sum::<usize>() == 0 {
            return Ok(None);
        }
        for (i, t) in docs.iter().enumerate() {
            std::fs::write(format!("{}/doc{i}.xml", w.scratch), t).map_err(|e| e.to_string())?;
        }
        let mut after = Vec::new();
        for t in &threads {
            all_ops(t, &mut after);
        }
        after.retain(|o| *o != Op::Address);
        let dir = w.scratch.clone();
        let setup = Setup::of(case, 30);
        let (t2, d2, x2, a2, l2) = (&threads, &dbs, &docs, &after, &lens);
        let out = simulate(
            w,
            &setup,
            &lens,
            || {
                std::env::set_current_dir(&dir).unwrap();
                Ctx { world: build_world(d2, x2), threads: t2.clone(), late: Late(UnsafeCell::new(l2.iter().map(|n| vec![None; *n]).collect())), after: a2.clone() }
            },
            body,
            Some(post),
        )?;
        let o = match out {
            Sim::Done(o) => o,
            Sim::Died(c, m, at, acts) => {
                let s = threads.get(at.0).and_then(|t| t.get(at.1));
                return viol(case, &acts, &c, format!("in or after {s:?}: {m}"));
            }
        };
        if o.end != "done" {
            return viol(case, &o.acts, end_class(&o.end), o.end.clone());
        }
        let Some(p) = &o.post else { return Err("no result of the calls afterwards".into()) };
        let mut sig = o.hash;
        let mut acted = false;
        for (i, t) in threads.iter().enumerate() {
            for (j, c) in t.iter().enumerate() {
                let place = ["", " (from a destructor during unwinding)", " (from a thread-local's destructor)", " (from the first thread-local's destructor)"][c.ctx as usize & 3];
                let g = match (&o.res[i][j], c.ctx) {
                    (Got::Panic(p), _) => return viol(case, &o.acts, "panic", format!("thread {i}, call {j}: {p}")),
                    (_, 2 | 3) => match &p.late[i][j] {
                        Some(r) => r.clone(),
                        None => return Err("destructor did not run".into()),
                    },
                    (Got::Val(r), _) => r.clone(),
                    (Got::Never, _) => return Err("step missing".into()),
                };
                acted |= g.fired;
                if !w.mute {
                    w.probe("callbacks invoked", g.invoked);
                    w.probe("callbacks that acted", g.fired as u64);
                    w.probe(&format!("acted: {}", c.via), g.fired as u64);
                }
                sig = mix2(sig, hash_str(&g.text) ^ g.invoked);
                if let Some((cl, m)) = judge(w, c, &g, &dbs, &docs) {
                    return viol(case, &o.acts, cl, format!("thread {i}, call {j}{place}: {m}"));
                }
            }
        }
        for (k, op) in after.iter().enumerate() {
            let want = w.reference(op, &dbs, &docs).text;
            if p.after[k] != want {
                return viol(case, &o.acts, "trace-left", format!("afterwards {op:?} returns {}, alone it returns {}", clip(&p.after[k], 400), clip(&want, 400)));
            }
        }
        if !w.mute {
            w.seen(sig, acted);
        }
        Ok(None)
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["threads", "reenter", "script", "changes"]
    }
    fn rule(&self) -> &'static str {
        "case = 1-3 threads x 2-8 calls whose string, path, reader, sink, key, hasher, writer or source is the caller's own code, which at a drawn invocation makes 0-2 further calls (up to three deep) and/or panics (three kinds of payload); some calls are made from destructors during unwinding or thread shut-down; afterwards every call is repeated. Non-trivial = a callback acted; distinct = distinct schedule and results"
    }
    fn real(&self) -> &'static str {
        "phonenumber parser, formatter, loader, database lookups, serde and hash implementations (instrumented build of /repo), std unwinding and thread-local destruction"
    }
    fn stub(&self) -> &'static str {
        "the callbacks; scheduler, clock, heap placement, entropy, environment"
    }
}
