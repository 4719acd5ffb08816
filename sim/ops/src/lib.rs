//! Thin operation layer over the public API of the library under test. It is
//! compiled with the same instrumentation, because generic entry points are
//! instantiated here.
use phonenumber::metadata::{Database, Descriptor, Format, DATABASE};
use phonenumber::{country, Metadata, Mode, PhoneNumber};
use bincode::Options as _;
use serde::{Deserialize, Serialize};
use simrt::sched::quiet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub use phonenumber;

/// Database selector: 0 = the default one through the short entry points,
/// 1 = the default one passed explicitly, k = custom database k-2.
pub type DbRef = usize;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Parse { db: DbRef, hint: Option<String>, s: String },
    FromStr { s: String },
    /// parse and then use the number in every way
    All { db: DbRef, hint: Option<String>, s: String },
    /// a number given as JSON
    Format { db: DbRef, n: String, mode: u8 },
    /// with the `k`-th format of the metadata of `region`
    FormatWith { db: DbRef, n: String, mode: u8, region: String, k: usize },
    Display { n: String },
    Valid { db: DbRef, n: String },
    Type { db: DbRef, n: String },
    Country { n: String },
    Meta { db: DbRef, n: String },
    Viable { s: String },
    ById { db: DbRef, id: String },
    ByCode { db: DbRef, code: u16 },
    Region { db: DbRef, code: u16 },
    Digest { db: DbRef },
    /// load document `doc` of the world and describe what came out
    Load { doc: usize },
    /// serialise, deserialise, describe; format 0..NFMT
    Serde { n: String, fmt: u8 },
    Eq { a: String, b: String },
    /// (harness) the number as JSON
    Json { db: DbRef, hint: Option<String>, s: String },
    /// the address of the default database, as seen by this caller
    Address,
}

#[derive(Default, Clone)]
pub struct World {
    pub dbs: Vec<Arc<Database>>,
    pub docs: Vec<String>,
    /// where database 2 is, when it is not held by the world
    pub at: Option<&'static Database>,
}

pub const NMODE: u8 = 4;
pub fn mode(m: u8) -> Mode {
    match m % 4 {
        0 => Mode::E164,
        1 => Mode::International,
        2 => Mode::National,
        _ => Mode::Rfc3966,
    }
}

pub fn hint(h: &Option<String>) -> Option<country::Id> {
    let _q = quiet();
    h.as_ref().and_then(|h| h.parse().ok())
}

pub fn number(json: &str) -> PhoneNumber {
    let _q = quiet();
    serde_json::from_str(json).expect("number")
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Like `to_string`, but an error from the formatter is a result, not a panic.
pub const FMT_ERR: &str = "fmt::Error after ";
pub fn text<D: std::fmt::Display>(d: D) -> String {
    let mut s = String::new();
    match write!(s, "{}", d) {
        Ok(()) => s,
        Err(_) => format!("{FMT_ERR}{s:?}"),
    }
}

pub fn db<'a>(w: &'a World, r: DbRef) -> &'a Database {
    match r {
        0 | 1 => &DATABASE,
        k => match w.at {
            Some(d) => d,
            None => &w.dbs[k - 2],
        },
    }
}

pub const HOOK: bool = cfg!(not(sim_nohook));
pub fn embed(bytes: &'static [u8]) {
    #[cfg(not(sim_nohook))]
    {
        let _ = phonenumber::metadata::SIM_EMBEDDED.set(bytes);
    }
    #[cfg(sim_nohook)]
    let _ = bytes;
}

pub fn force_default() -> usize {
    let d: &Database = &DATABASE;
    d as *const Database as usize
}

fn show(n: &PhoneNumber) -> String {
    let _q = quiet();
    format!("{n:?}")
}

pub fn run_op(w: &World, op: &Op) -> String {
    match catch_unwind(AssertUnwindSafe(|| run_op_inner(w, op))) {
        Ok(s) => s,
        Err(p) => format!("PANIC {}", panic_text(p)),
    }
}

pub fn parse(w: &World, d: DbRef, h: Option<country::Id>, s: &str) -> Result<PhoneNumber, phonenumber::ParseError> {
    match d {
        0 => phonenumber::parse(h, s),
        d => phonenumber::parse_with(db(w, d), h, s),
    }
}

pub fn use_number(w: &World, d: DbRef, n: &PhoneNumber) -> String {
    let mut out = String::new();
    for m in 0..NMODE {
        let t = match d {
            0 => text(n.format().mode(mode(m))),
            d => text(n.format_with(db(w, d)).mode(mode(m))),
        };
        let _q = quiet();
        let _ = write!(out, "{t} | ");
    }
    let v = match d {
        0 => n.is_valid(),
        d => n.is_valid_with(db(w, d)),
    };
    let t = match d {
        0 => n.number_type(),
        d => n.number_type_with(db(w, d)),
    };
    let c = if d < 2 { Some(n.country().id()) } else { None };
    let m = n.metadata(db(w, d)).map(|m| m.id().to_string());
    let _q = quiet();
    let _ = write!(out, "{v} {t:?} {c:?} {m:?}");
    out
}

fn run_op_inner(w: &World, op: &Op) -> String {
    match op {
        Op::Parse { db: d, hint: h, s } => {
            let r = parse(w, *d, hint(h), s);
            let _q = quiet();
            format!("{r:?}")
        }
        Op::FromStr { s } => {
            let r = s.parse::<PhoneNumber>();
            let _q = quiet();
            format!("{r:?}")
        }
        Op::All { db: d, hint: h, s } => match parse(w, *d, hint(h), s) {
            Ok(n) => {
                let u = use_number(w, *d, &n);
                format!("{} {}", show(&n), u)
            }
            Err(e) => {
                let _q = quiet();
                format!("Err {e:?} {e}")
            }
        },
        Op::Format { db: d, n, mode: m } => {
            let n = number(n);
            match d {
                0 => text(n.format().mode(mode(*m))),
                d => text(n.format_with(db(w, *d)).mode(mode(*m))),
            }
        }
        Op::FormatWith { db: d, n, mode: m, region, k } => {
            let n = number(n);
            let dbx = db(w, *d);
            match dbx.by_id(region.as_str()).and_then(|x| {
                let f = x.formats();
                if f.is_empty() {
                    None
                } else {
                    Some(&f[*k % f.len()])
                }
            }) {
                Some(f) => text(phonenumber::format(&n).database(dbx).mode(mode(*m)).with(f)),
                None => "no such format".into(),
            }
        }
        Op::Display { n } => text(&number(n)),
        Op::Valid { db: d, n } => {
            let n = number(n);
            match d {
                0 => phonenumber::is_valid(&n).to_string(),
                d => phonenumber::is_valid_with(db(w, *d), &n).to_string(),
            }
        }
        Op::Type { db: d, n } => {
            let n = number(n);
            let t = match d {
                0 => n.number_type(),
                d => n.number_type_with(db(w, *d)),
            };
            format!("{t:?}")
        }
        Op::Country { n } => {
            let n = number(n);
            let c = n.country();
            let r = (c.code(), c.id());
            let _q = quiet();
            format!("{r:?}")
        }
        Op::Meta { db: d, n } => {
            let n = number(n);
            match n.metadata(db(w, *d)) {
                Some(m) => meta_digest(m),
                None => "none".into(),
            }
        }
        Op::Viable { s } => phonenumber::is_viable(s).to_string(),
        Op::ById { db: d, id } => match db(w, *d).by_id(id.as_str()) {
            Some(m) => meta_digest(m),
            None => "none".into(),
        },
        Op::ByCode { db: d, code } => match db(w, *d).by_code(code) {
            Some(v) => v.iter().map(|m| meta_digest(m)).collect::<Vec<_>>().join("\n"),
            None => "none".into(),
        },
        Op::Region { db: d, code } => format!("{:?}", db(w, *d).region(code)),
        Op::Digest { db: d } => db_digest(db(w, *d)),
        Op::Load { doc } => match Database::parse(&w.docs[*doc]) {
            Ok(d) => db_digest(&d),
            Err(e) => format!("Err {e}"),
        },
        Op::Serde { n, fmt } => {
            let n = number(n);
            match encode(&n, *fmt).and_then(|b| decode(&b, *fmt)) {
                Ok(n) => show(&n),
                Err(e) => format!("Err {e}"),
            }
        }
        Op::Eq { a, b } => {
            use std::hash::{Hash, Hasher};
            let (a, b) = (number(a), number(b));
            let h = |n: &PhoneNumber| {
                let mut h = Fnv(0xcbf29ce484222325);
                n.hash(&mut h);
                h.finish()
            };
            format!("{} {:x} {:x}", a == b, h(&a), h(&b))
        }
        Op::Json { db: d, hint: h, s } => match parse(w, *d, hint(h), s) {
            Ok(n) => serde_json::to_string(&n).unwrap(),
            Err(_) => String::new(),
        },
        Op::Address => format!("{:#x}", force_default()),
    }
}

pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

// ---- describing databases through their public accessors ------------------------------------

/// A pattern as the library sees it: regexes are compiled in free-spacing mode.
fn pat(r: &regex::Regex) -> String {
    r.as_str().chars().filter(|c| !c.is_whitespace()).collect()
}

fn desc_digest(out: &mut String, name: &str, d: Option<&Descriptor>) {
    if let Some(d) = d {
        let _ = write!(
            out,
            "\n {name}: {:?} {:?} {:?} {:?}",
            pat(d.national_number()),
            d.possible_length(),
            d.possible_local_length(),
            d.example()
        );
    }
}
fn fmt_digest(out: &mut String, name: &str, f: &Format) {
    let _ = write!(
        out,
        "\n {name}: {:?} {:?} {:?} {:?} {} {:?}",
        pat(f.pattern()),
        f.format(),
        f.leading_digits().iter().map(pat).collect::<Vec<_>>(),
        f.national_prefix(),
        f.is_national_prefix_optional(),
        f.domestic_carrier()
    );
}
pub fn meta_digest(m: &Metadata) -> String {
    let mut o = String::new();
    let _ = write!(
        o,
        "{} {} intl={:?} pref={:?} np={:?} ext={:?} npp={:?} rule={:?} main={} lead={:?} port={}",
        m.id(),
        m.country_code(),
        m.international_prefix().map(pat),
        m.preferred_international_prefix(),
        m.national_prefix(),
        m.preferred_extension_prefix(),
        m.national_prefix_for_parsing().map(pat),
        m.national_prefix_transform_rule(),
        m.is_main_country_for_code(),
        m.leading_digits().map(pat),
        m.is_mobile_number_portable()
    );
    let d = m.descriptors();
    desc_digest(&mut o, "general", Some(d.general()));
    desc_digest(&mut o, "fixedLine", d.fixed_line());
    desc_digest(&mut o, "mobile", d.mobile());
    desc_digest(&mut o, "tollFree", d.toll_free());
    desc_digest(&mut o, "premiumRate", d.premium_rate());
    desc_digest(&mut o, "sharedCost", d.shared_cost());
    desc_digest(&mut o, "personalNumber", d.personal_number());
    desc_digest(&mut o, "voip", d.voip());
    desc_digest(&mut o, "pager", d.pager());
    desc_digest(&mut o, "uan", d.uan());
    desc_digest(&mut o, "emergency", d.emergency());
    desc_digest(&mut o, "voicemail", d.voicemail());
    desc_digest(&mut o, "shortCode", d.short_code());
    desc_digest(&mut o, "standardRate", d.standard_rate());
    desc_digest(&mut o, "carrier", d.carrier());
    desc_digest(&mut o, "noInternationalDialling", d.no_international());
    for f in m.formats() {
        fmt_digest(&mut o, "format", f);
    }
    for f in m.international_formats() {
        fmt_digest(&mut o, "intl", f);
    }
    o
}

/// Everything the public accessors tell about a database, in canonical order.
pub fn db_digest(d: &Database) -> String {
    let mut ids: Vec<String> = d.iter().map(|m| format!("{} -> {}", m.id(), m.country_code())).collect();
    ids.sort();
    let mut o = ids.join(",");
    let mut codes: Vec<u16> = (0..=1200).collect();
    codes.extend(d.iter().map(|m| m.country_code()));
    codes.extend([9999, 10000, 32767, 32768, 65535]);
    codes.sort();
    codes.dedup();
    for c in codes {
        {
            let _q = quiet();
            if d.region(&c).is_none() && d.by_code(&c).is_none() {
                continue;
            }
        }
        if let Some(r) = d.region(&c) {
            let _ = write!(o, "\n{c}: {r:?}");
        }
        if let Some(v) = d.by_code(&c) {
            for m in v {
                o.push('\n');
                o.push_str(&meta_digest(m));
            }
        }
    }
    for m in {
        let mut v: Vec<&Metadata> = d.iter().collect();
        v.sort_by(|a, b| a.id().cmp(b.id()));
        v
    } {
        let same = d.by_id(m.id()).map(|x| meta_digest(x) == meta_digest(m));
        if same != Some(true) {
            let _ = write!(o, "\nby_id({}) disagrees with iter: {same:?}", m.id());
        }
        // an entry no code leads to
        if !d.by_code(&m.country_code()).is_some_and(|v| v.iter().any(|x| x.id() == m.id())) {
            let _ = write!(o, "\nonly by id: {}", meta_digest(m));
        }
    }
    o
}

// ---- serde formats ----------------------------------------------------------------------------

pub const NFMT: u8 = 9;
pub const FMT_NAMES: [&str; 9] = ["json", "postcard", "bincode", "cbor", "json-value", "json-pretty", "json-flatten", "cbor-untagged", "bincode-list"];

/// A number inside a record of the user's.
#[derive(Serialize, Deserialize, Clone)]
struct Flat<N> {
    id: u32,
    #[serde(flatten)]
    number: N,
    note: Option<String>,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Contact<N> {
    Known { number: N },
    Unknown { name: String },
}

pub fn encode<N: Serialize + Clone>(n: &N, fmt: u8) -> Result<Vec<u8>, String> {
    match fmt {
        0 => serde_json::to_vec(n).map_err(|e| e.to_string()),
        1 => postcard::to_allocvec(n).map_err(|e| e.to_string()),
        2 => bincode::serialize(n).map_err(|e| e.to_string()),
        3 => {
            let mut v = Vec::new();
            ciborium::into_writer(n, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        4 => {
            let v = serde_json::to_value(n).map_err(|e| e.to_string())?;
            serde_json::to_vec(&v).map_err(|e| e.to_string())
        }
        6 => serde_json::to_vec(&Flat { id: 7, number: n.clone(), note: None }).map_err(|e| e.to_string()),
        7 => {
            let mut v = Vec::new();
            ciborium::into_writer(&Contact::Known { number: n.clone() }, &mut v).map_err(|e| e.to_string())?;
            Ok(v)
        }
        8 => bincode::serialize(&(vec![n.clone(), n.clone()], 77u8)).map_err(|e| e.to_string()),
        _ => serde_json::to_vec_pretty(n).map_err(|e| e.to_string()),
    }
}
pub fn decode(b: &[u8], fmt: u8) -> Result<PhoneNumber, String> {
    decode_as(b, fmt)
}
pub fn decode_as<N: serde::de::DeserializeOwned>(b: &[u8], fmt: u8) -> Result<N, String> {
    match fmt {
        0 | 5 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => postcard::from_bytes(b).map_err(|e| e.to_string()),
        2 => bincode::deserialize(b).map_err(|e| e.to_string()),
        3 => ciborium::from_reader(b).map_err(|e| e.to_string()),
        6 => serde_json::from_slice::<Flat<N>>(b).map(|f| f.number).map_err(|e| e.to_string()),
        7 => match ciborium::from_reader::<Contact<N>, _>(b).map_err(|e| e.to_string())? {
            Contact::Known { number } => Ok(number),
            Contact::Unknown { name } => Err(name),
        },
        8 => {
            let (mut v, _): (Vec<N>, u8) = bincode::deserialize(b).map_err(|e| e.to_string())?;
            v.pop().ok_or_else(|| "empty".into())
        }
        _ => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
    }
}
/// bincode believes lengths it reads; a limit keeps damaged ones small.
fn limited() -> impl bincode::Options {
    bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(1 << 20)
}
/// Decode from a stream (a reader that may fail or deliver in pieces).
pub fn decode_reader<R: std::io::Read>(r: R, fmt: u8) -> Result<PhoneNumber, String> {
    match fmt {
        1 => {
            let mut v = Vec::new();
            let mut r = r;
            r.read_to_end(&mut v).map_err(|e| e.to_string())?;
            decode(&v, 1)
        }
        2 => limited().deserialize_from(r).map_err(|e| e.to_string()),
        3 => ciborium::from_reader(r).map_err(|e| e.to_string()),
        6 => serde_json::from_reader::<_, Flat<PhoneNumber>>(r).map(|f| f.number).map_err(|e| e.to_string()),
        7 => match ciborium::from_reader::<Contact<PhoneNumber>, _>(r).map_err(|e| e.to_string())? {
            Contact::Known { number } => Ok(number),
            Contact::Unknown { name } => Err(name),
        },
        8 => {
            let (mut v, _): (Vec<PhoneNumber>, u8) = limited().deserialize_from(r).map_err(|e| e.to_string())?;
            v.pop().ok_or_else(|| "empty".into())
        }
        _ => serde_json::from_reader(r).map_err(|e| e.to_string()),
    }
}
pub fn encode_writer<W: std::io::Write>(w: W, n: &PhoneNumber, fmt: u8) -> Result<(), String> {
    match fmt {
        1 => postcard::to_io(n, w).map(|_| ()).map_err(|e| e.to_string()),
        2 => bincode::serialize_into(w, n).map_err(|e| e.to_string()),
        3 => ciborium::into_writer(n, w).map_err(|e| e.to_string()),
        5 => serde_json::to_writer_pretty(w, n).map_err(|e| e.to_string()),
        4 | 6..=8 => {
            let mut w = w;
            w.write_all(&encode(n, fmt)?).map_err(|e| e.to_string())
        }
        _ => serde_json::to_writer(w, n).map_err(|e| e.to_string()),
    }
}

pub mod old;

// ---- loading ------------------------------------------------------------------------------------

pub struct LoadErr {
    pub text: String,
    /// (kind, raw os error, message) of the first io::Error in the source chain
    pub io: Option<(std::io::ErrorKind, Option<i32>, String)>,
}

fn load_err<E: std::error::Error + 'static>(e: E) -> LoadErr {
    let text = format!("{e}");
    let mut io = None;
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(&e);
    while let Some(x) = cur {
        if let Some(i) = x.downcast_ref::<std::io::Error>() {
            io = Some((i.kind(), i.raw_os_error(), i.to_string()));
            break;
        }
        if let Some(i) = x.downcast_ref::<Arc<std::io::Error>>() {
            io = Some((i.kind(), i.raw_os_error(), i.to_string()));
            break;
        }
        cur = x.source();
    }
    LoadErr { text, io }
}

pub fn load_str(s: &str) -> Result<Database, LoadErr> {
    Database::parse(s).map_err(load_err)
}
pub fn load_path<P: AsRef<std::path::Path>>(p: P) -> Result<Database, LoadErr> {
    Database::load(p).map_err(load_err)
}
pub fn load_reader<R: std::io::BufRead>(r: R) -> Result<Database, LoadErr> {
    let v = phonenumber::metadata::loader::load(r).map_err(load_err)?;
    Database::from(v).map_err(load_err)
}
