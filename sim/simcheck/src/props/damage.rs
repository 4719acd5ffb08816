//! C08: documents damaged in storage, then loaded and used.
use super::common::*;
use super::load::Source;
use super::*;
use crate::docmodel;
use crate::worker::*;
use crate::xml;
use ops::{Op, World};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::Arc;

pub struct Damage;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Edit {
    pub at: u64,
    pub del: u64,
    pub ins: Vec<u8>,
    pub rep: u32,
    pub what: String,
}

pub fn apply(t: &mut Vec<u8>, e: &Edit) {
    let at = (e.at as usize).min(t.len());
    let end = (at + e.del as usize).min(t.len());
    let mut ins = Vec::new();
    for _ in 0..e.rep {
        ins.extend_from_slice(&e.ins);
    }
    t.splice(at..end, ins);
}

/// Attribute values: (start, end, name)
fn attrs(t: &[u8]) -> Vec<(usize, usize, String)> {
    let mut v = Vec::new();
    let mut i = 0;
    let mut in_tag = false;
    while i < t.len() {
        match t[i] {
            b'<' => {
                if t[i..].starts_with(b"<!--") {
                    match t[i..].windows(3).position(|w| w == b"-->") {
                        Some(k) => i += k + 2,
                        None => break,
                    }
                } else {
                    in_tag = true;
                }
            }
            b'>' => in_tag = false,
            b'=' if in_tag && i + 1 < t.len() && (t[i + 1] == b'"' || t[i + 1] == b'\'') => {
                let q = t[i + 1];
                let mut b = i;
                while b > 0 && t[b - 1].is_ascii_alphabetic() {
                    b -= 1;
                }
                let name = String::from_utf8_lossy(&t[b..i]).into_owned();
                let s = i + 2;
                match t[s..].iter().position(|c| *c == q) {
                    Some(k) => {
                        v.push((s, s + k, name));
                        i = s + k;
                    }
                    None => break,
                }
            }
            _ => {}
        }
        i += 1;
    }
    v
}

/// Elements: (start of the start tag, end of the start tag, start of the end tag, end of the end tag, name)
fn elems(t: &[u8]) -> Vec<(usize, usize, usize, usize, String)> {
    let s = String::from_utf8_lossy(t).into_owned();
    if s.len() != t.len() {
        return vec![];
    }
    let mut v = Vec::new();
    let mut stack: Vec<(usize, usize, String)> = Vec::new();
    let mut i = 0;
    while let Some(k) = s[i..].find('<') {
        let a = i + k;
        if s[a..].starts_with("<!--") {
            match s[a..].find("-->") {
                Some(k) => i = a + k + 3,
                None => break,
            }
            continue;
        }
        let mut b = a + 1;
        let mut q = 0u8;
        while b < t.len() && (q != 0 || t[b] != b'>') {
            if q != 0 {
                if t[b] == q {
                    q = 0;
                }
            } else if t[b] == b'"' || t[b] == b'\'' {
                q = t[b];
            }
            b += 1;
        }
        if b >= t.len() {
            break;
        }
        let body = &s[a + 1..b];
        if let Some(n) = body.strip_prefix('/') {
            if let Some((x, y, name)) = stack.pop() {
                if name == n.trim() {
                    v.push((x, y, a, b + 1, name));
                }
            }
        } else if !body.starts_with('!') && !body.starts_with('?') {
            let name: String = body.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            if body.ends_with('/') {
                v.push((a, b + 1, b + 1, b + 1, name));
            } else {
                stack.push((a, b + 1, name));
            }
        }
        i = b + 1;
    }
    v
}

const LENGTHS: [&str; 34] = [
    "", ",", "[", "]", "[]", "[-]", "-", "[1-", "[1-]", "[-5]", "[5-2]", "[1-2", "5,", ",5", " 5 ", "5, 6", "[5-7],[9-10]", "65535", "65536", "[0-65535]", "[65535-65535]", "[65530-65535]", "0", "-1", "a", "[a-b]", "[é-5]", "[5-é", "[5-6é", "[é]", "[1-2-3]", "[5 - 7]", "\u{00a0}", "[5-7",
];
const RX: [&str; 32] = [
    "", "(", ")", "()", "(?:)", "(?:0|1)", "(\\d)|x", "(x)?(\\d)", "\\d*", "x", "[", "a{1000}{1000}", "\\d{0}", "#c", "^$", "(?i)é", "(\\d+)(\\d*)", "(?P<n>\\d)", "\\d{2,1}", "(\\d{3})?(\\d{2})", "\\", "(0)?", "0(\\d)?|1(\\d)?", ".*", "(?s).", "\\p{Nd}", "(?:\\d{1000}){1000}{1000}", "\\d{100000}", "(?:a|b){999}{99}", "((((((x{99}){99}){99}){99}){99}){9})", "\\d{1000}", "(?:(?:\\d?){50}){50}",
];
const FORMATS: [&str; 18] = ["", "$", "$0", "$9", "$99", "NA", "x", "${1", "${1}", "$1$1$1$1", "$2 $1", "$name", "$$1", "é", "$1 é $2", "$1a", " ", "$FG"];
const RULES: [&str; 20] = ["", "$", "$NP", "$FG", "$CC", "$NP$FG", "($FG", "$1", "$2", "$1$2", "$9", "$$", "$NP $CC ($FG)", "é$1", "0", "000000000000000000000000", "x", "99999999999999999$1", "$1$1$1", "-"];
const IDS: [&str; 16] = ["001", "US", "XX", "us", "", "GB", "é", "USA", "0", "AC", "\u{1F600}", " US", "DE", "KZ", "RU", "IT"];
const CODES: [&str; 16] = ["0", "1", "00001", "65535", "65536", "-1", "+44", "", "x", "44", "999", "1000", "99999", "7", " 1", "800"];
const CHARS: [&str; 28] = [
    "é", "\u{ff19}", "\u{1F600}", "\u{0}", "\u{85}", "\u{2003}", "\u{130}", "-", ",", "[", "]", " ", "\t", "0", "9", "+", "$", "(", ")", "\\", "|", "?", "*", "{", "}", ".", "#", "",
];
const TOKENS: [&str; 44] = [
    "<", ">", "/", "\"", "'", "=", "&", "&amp;", "&#0;", "&x;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE x>", "<!DOCTYPE x [", "<!ENTITY a \"b\">", "</territory>", "<territory>", "<territory id=\"QQ\" countryCode=\"1\">", "<territory/>", "</territories>", "<territories>", "</phoneNumberMetadata>", "<phoneNumberMetadata>", "<x>", "</x>", "<x/>",
    "<possibleLengths national=\"5\"/>", "<possibleLengths>", "<generalDesc>", "</generalDesc>", "<nationalNumberPattern>", "</nationalNumberPattern>", "<numberFormat>", "<numberFormat pattern=\"\">", "<availableFormats>", "<format>", "\u{feff}", "\u{0}", "\u{7f}", "é", "\r",
];

fn special(r: &mut Rng, name: &str) -> Vec<u8> {
    let list: &[&str] = match name {
        "national" | "localOnly" => &LENGTHS,
        "id" => &IDS,
        "countryCode" => &CODES,
        "internationalPrefix" | "nationalPrefixForParsing" | "leadingDigits" | "pattern" | "nationalNumberPattern" => &RX,
        "format" | "intlFormat" => &FORMATS,
        "mainCountryForCode" | "nationalPrefixOptionalWhenFormatting" | "mobileNumberPortableRegion" => &["", "true", "false", "TRUE", "1", " true"],
        _ => &RULES,
    };
    r.pick(list).as_bytes().to_vec()
}

pub fn gen_edit(r: &mut Rng, t: &[u8]) -> Edit {
    let n = t.len() as u64;
    let mk = |at: u64, del: u64, ins: Vec<u8>, what: &str| Edit { at, del, ins, rep: 1, what: what.into() };
    if n == 0 {
        return mk(0, 0, b"<".to_vec(), "insert");
    }
    let block = |r: &mut Rng| -> (u64, u64) {
        if r.chance(1, 4) {
            let b = *r.pick(&[64u64, 512, 4096]);
            let k = r.below(n.div_ceil(b));
            (k * b, b.min(n - k * b))
        } else {
            let at = r.below(n);
            (at, r.log(1, (n - at).clamp(1, 4000)))
        }
    };
    match r.below(30) {
        28 => {
            // a repetition count
            let s: Vec<usize> = (0..t.len().saturating_sub(1)).filter(|i| (t[*i] == b'{' || t[*i] == b',') && t[i + 1].is_ascii_digit()).collect();
            if s.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            let a = *r.pick(&s) + 1;
            let l = t[a..].iter().take_while(|b| b.is_ascii_digit()).count();
            let v: &[u8] = *r.pick(&[&b"0"[..], b"1", b"99", b"1000", b"65536", b"99999999", b"4294967296", b"50}{1000}{1000"]);
            mk(a as u64, l as u64, v.to_vec(), "repetition count")
        }
        29 => {
            // a pattern, wrapped
            let a: Vec<(usize, usize, String)> = attrs(t).into_iter().filter(|x| matches!(x.2.as_str(), "pattern" | "nationalPrefixForParsing" | "leadingDigits" | "internationalPrefix")).chain(elems(t).into_iter().filter(|x| matches!(x.4.as_str(), "nationalNumberPattern" | "leadingDigits")).map(|x| (x.1, x.2.max(x.1), x.4))).collect();
            if a.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            let (s, e, _) = r.pick(&a).clone();
            let (b, z) = *r.pick(&[("(?:", "){1000}{1000}{1000}"), ("(?:", "){1000}"), ("(", ")*"), ("(?:", ")?"), ("(?:", ")*+"), ("(?:|", ")"), ("(?x)", "# "), ("(", ")")]);
            let k = if r.chance(1, 8) { r.log(1, 400) as usize } else { 1 };
            let mut v = b.repeat(k).into_bytes();
            v.extend_from_slice(&t[s..e]);
            v.extend_from_slice(z.repeat(k).as_bytes());
            mk(s as u64, (e - s) as u64, v, "wrapped pattern")
        }
        24..=27 => {
            // a character in, before, after or instead of one in a value
            let mut v: Vec<(usize, usize, String)> = attrs(t);
            v.extend(elems(t).into_iter().filter(|x| x.2 >= x.1 && !t[x.1..x.2].contains(&b'<')).map(|x| (x.1, x.2, x.4)));
            if v.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            let mut names: Vec<&String> = v.iter().map(|x| &x.2).collect();
            names.sort();
            names.dedup();
            let name = r.pick(&names).to_string();
            let c: Vec<_> = v.iter().filter(|x| x.2 == name).collect();
            let (a, b, _) = (**r.pick(&c)).clone();
            let special: Vec<usize> = (a..b).filter(|i| !t[*i].is_ascii_alphanumeric()).collect();
            let at = match r.below(4) {
                0 => a,
                1 => b,
                2 if !special.is_empty() => *r.pick(&special) + r.below(2) as usize,
                _ => a + r.below((b - a + 1) as u64) as usize,
            };
            let del = if at < b && r.chance(1, 2) { 1 } else { 0 };
            let ins = r.pick(&CHARS).as_bytes().to_vec();
            mk(at as u64, del, ins, "changed character of a value")
        }
        0..=2 => {
            let at = r.below(n);
            mk(at, 1, vec![t[at as usize] ^ (1 << r.below(8))], "flipped bit")
        }
        3 => {
            let b = b"<>\"'&/=[]-, 0195\0\xff\xc3$(){}\\|?*#";
            mk(r.below(n), 1, vec![*r.pick(b)], "changed byte")
        }
        4 => {
            let (a, l) = block(r);
            mk(a, l, vec![], "lost block")
        }
        5 => {
            let (a, l) = block(r);
            mk(a + l, 0, t[a as usize..(a + l) as usize].to_vec(), "repeated block")
        }
        6 => {
            let (a, l) = block(r);
            let v = *r.pick(&[0u8, 0, 0xff, b' ', b'9']);
            mk(a, l, vec![v; l as usize], "overwritten block")
        }
        7 => {
            // a block with the contents of another place
            let (a, l) = block(r);
            let b = r.below(n - l + 1);
            mk(a, l, t[b as usize..(b + l) as usize].to_vec(), "misplaced block")
        }
        8 => {
            let at = r.below(n);
            mk(at, n - at, vec![], "torn end")
        }
        9 | 10 => {
            let tok = r.pick(&TOKENS).as_bytes().to_vec();
            mk(r.below(n + 1), 0, tok, "insert")
        }
        11..=15 => {
            let a = attrs(t);
            if a.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            // all kinds of attribute equally often
            let mut names: Vec<&String> = a.iter().map(|x| &x.2).collect();
            names.sort();
            names.dedup();
            let name = r.pick(&names).to_string();
            let c: Vec<_> = a.iter().filter(|x| x.2 == name).collect();
            let (s, e, _) = (**r.pick(&c)).clone();
            match r.below(6) {
                0 => {
                    // another attribute's value
                    let o = r.pick(&a).clone();
                    mk(s as u64, (e - s) as u64, t[o.0..o.1].to_vec(), "attribute value")
                }
                1 => mk(s as u64, (e - s) as u64, vec![], "attribute value"),
                _ => mk(s as u64, (e - s) as u64, special(r, &name), "attribute value"),
            }
        }
        16..=20 => {
            let a = elems(t);
            if a.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            let mut names: Vec<&String> = a.iter().map(|x| &x.4).collect();
            names.sort();
            names.dedup();
            let name = r.pick(&names).to_string();
            let c: Vec<_> = a.iter().filter(|x| x.4 == name).collect();
            let (s, b, z, e, _) = (**r.pick(&c)).clone();
            match r.below(6) {
                0 | 1 => mk(s as u64, (e - s) as u64, vec![], "lost element"),
                2 => mk(e as u64, 0, t[s..e].to_vec(), "repeated element"),
                3 => {
                    let o = r.pick(&a).clone();
                    mk(e as u64, 0, t[o.0..o.3].to_vec(), "misplaced element")
                }
                _ => mk(b as u64, z.saturating_sub(b) as u64, special(r, &name), "element content"),
            }
        }
        21 => {
            // digits
            let d: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_digit()).collect();
            if d.is_empty() {
                return mk(r.below(n), 1, vec![], "lost byte");
            }
            let at = *r.pick(&d);
            let v: &[u8] = *r.pick(&[&b"0"[..], b"9", b"00", b"65536", b"99999999999999999999", b"-1", b""]);
            mk(at as u64, 1, v.to_vec(), "digits")
        }
        22 => {
            let k = r.log(2, 6);
            let a = r.below(n);
            mk(a, 0, t[a as usize..(a + k).min(n) as usize].to_vec(), "repeated bytes")
        }
        _ => {
            // a block written over and over
            let v: &[u8] = *r.pick(&[&b"<references>"[..], b"<x>", b"<territory id=\"US\" countryCode=\"1\">", b"<areaCodeOptional>", b"<x></x>", b"<!---->", b"9", b"(", b"<phoneNumberMetadata>", b"<territories>", b"\"", b"[1-9]"]);
            let a = elems(t);
            let at = if a.is_empty() || r.chance(1, 4) {
                r.below(n + 1)
            } else {
                let x = r.pick(&a);
                *r.pick(&[x.0, x.1, x.2, x.3]) as u64
            };
            Edit { at, del: 0, ins: v.to_vec(), rep: r.log(2, 200_000) as u32, what: "block repeated endlessly".into() }
        }
    }
}

pub fn njson(r: &mut Rng, code: u64, digits: &str) -> String {
    let zeros = digits.bytes().take_while(|b| *b == b'0').count().min(255) as u64;
    let v: u64 = digits.trim_start_matches('0').parse().unwrap_or(0);
    let src = ["plus", "idd", "number", "default"];
    let ext = if r.chance(1, 4) { Some(r.pick(&["1", "0099", "1234567"]).to_string()) } else { None };
    let car = if r.chance(1, 3) { Some(r.pick(&["15", "31", "é", ""]).to_string()) } else { None };
    json!({"code": {"value": code, "source": r.pick(&src)}, "national": {"value": (zeros << 56) | (v & 0x00ff_ffff_ffff_ffff)}, "extension": ext, "carrier": car}).to_string()
}

/// Work for a database that came out of a damaged document.
fn gen_ops(w: &Worker, r: &mut Rng, text: &str) -> Vec<Op> {
    let mut ids: Vec<String> = Vec::new();
    let mut codes: Vec<u64> = Vec::new();
    let mut nps: Vec<String> = vec!["0".into()];
    let mut ex: Vec<String> = Vec::new();
    for (s, e, n) in attrs(text.as_bytes()) {
        let v = text.get(s..e).unwrap_or("").to_string();
        match n.as_str() {
            "id" => ids.push(v),
            "countryCode" => codes.extend(v.parse::<u16>().ok().map(|x| x as u64)),
            "nationalPrefix" => nps.push(v),
            "internationalPrefix" => nps.push(v.chars().filter(|c| c.is_ascii_digit()).collect()),
            _ => {}
        }
    }
    let mut q = text;
    while let Some(i) = q.find("<exampleNumber>") {
        q = &q[i + 15..];
        let e = q.find('<').unwrap_or(0);
        ex.push(q[..e].trim().to_string());
        if ex.len() > 60 {
            break;
        }
    }
    if ids.is_empty() {
        ids.push("US".into());
    }
    if codes.is_empty() {
        codes.push(1);
    }
    if ex.is_empty() {
        ex.push("2012345678".into());
    }
    let n = r.range(8, 40);
    let mut v = vec![Op::Digest { db: 2 }];
    for _ in 0..n {
        let digits = if r.chance(1, 2) {
            r.pick(&ex).clone()
        } else {
            let k = r.range(1, 16);
            (0..k).map(|_| (b'0' + if r.chance(1, 4) { 0 } else { r.below(10) as u8 }) as char).collect()
        };
        let code = if r.chance(1, 8) { *r.pick(&[0u64, 1, 44, 999, 65535]) } else { *r.pick(&codes) };
        let id = if r.chance(1, 4) { r.pick(&w.pool.all_ids).clone() } else { r.pick(&ids).clone() };
        let hint = if r.chance(1, 4) { None } else { Some(id.clone()) };
        let np = r.pick(&nps).clone();
        let op = match r.below(14) {
            0..=4 => {
                let s = match r.below(8) {
                    0 | 1 => format!("+{code}{digits}"),
                    2 => digits.clone(),
                    3 => format!("{np}{digits}"),
                    4 => format!("{code}{digits}"),
                    5 => format!("{np}{code}{digits}"),
                    6 => format!("tel:{digits};phone-context=+{code}"),
                    _ => format!("+{code}{np}{digits}"),
                };
                Op::All { db: 2, hint, s }
            }
            5 => {
                let (s, h) = w.pool.input(r);
                Op::All { db: 2, hint: h, s }
            }
            6..=8 => Op::Format { db: 2, n: njson(r, code, &digits), mode: r.below(4) as u8 },
            9 => Op::FormatWith { db: 2, n: njson(r, code, &digits), mode: r.below(4) as u8, region: id, k: r.below(6) as usize },
            10 => Op::Valid { db: 2, n: njson(r, code, &digits) },
            11 => Op::Type { db: 2, n: njson(r, code, &digits) },
            12 => Op::Meta { db: 2, n: njson(r, code, &digits) },
            _ => match r.below(3) {
                0 => Op::ById { db: 2, id },
                1 => Op::ByCode { db: 2, code: code as u16 },
                _ => Op::Region { db: 2, code: code as u16 },
            },
        };
        v.push(op);
    }
    v
}

struct Ctx {
    doc: Vec<u8>,
    via: u8,
    ops: Vec<Op>,
    world: std::cell::UnsafeCell<Option<World>>,
}

fn body(c: &'static Ctx, _t: usize, j: usize) -> String {
    let slot = unsafe { &mut *c.world.get() };
    if j == 0 {
        let r = match (c.via, std::str::from_utf8(&c.doc)) {
            (0, Ok(s)) => ops::load_str(s),
            (1, _) => ops::load_reader(std::io::BufReader::with_capacity(61, &c.doc[..])),
            _ => ops::load_reader(&c.doc[..]),
        };
        return match r {
            Ok(d) => {
                *slot = Some(World { dbs: vec![Arc::new(d)], docs: vec![], at: None });
                "loaded".into()
            }
            Err(e) => e.text,
        };
    }
    match slot {
        None => String::new(),
        Some(w) => {
            let t = ops::run_op(w, &c.ops[j - 1]);
            let _q = simrt::sched::quiet();
            if let Some(p) = t.strip_prefix("PANIC") {
                format!("PANIC{p} at {}", crate::fork::last_panic())
            } else {
                format!("{:x}", hash_str(&t))
            }
        }
    }
}

impl Prop for Damage {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn cfg(&self, r: &mut Rng, _k: usize, _round: usize) -> Cfg {
        Cfg { codes: Some(subset(r, 1)), varied: 0, cold: false }
    }
    fn gen(&self, w: &mut Worker, r: &mut Rng, _idx: u64) -> Option<Value> {
        let src = match r.below(4) {
            0 | 1 => Source::Model(docmodel::gen(r)),
            _ => {
                let n = r.range(1, 3) as usize;
                Source::Bundled(subset(r, n))
            }
        };
        let mut t = src.text().into_bytes();
        if t.len() > 300_000 {
            return None;
        }
        let mut edits = Vec::new();
        for _ in 0..r.log(1, 6) {
            let e = gen_edit(r, &t);
            apply(&mut t, &e);
            edits.push(e);
        }
        let text = String::from_utf8_lossy(&t[..t.len().min(400_000)]).into_owned();
        let ops = gen_ops(w, r, &text);
        let mut plan = simrt::sched::Plan::default();
        budget(&mut plan, 400_000_000);
        Some(json!({"doc": src, "edits": edits, "via": r.below(3), "ops": ops, "plan": plan_json(&plan), "env": r.next() & 0xffff_ffff, "heap": r.below(6)}))
    }
    fn run(&self, w: &mut Worker, case: &Value) -> Run {
        let src: Source = from_case(case, "doc")?;
        let edits: Vec<Edit> = from_case(case, "edits")?;
        let opsv: Vec<Op> = from_case(case, "ops")?;
        let mut doc = src.text().into_bytes();
        for e in &edits {
            apply(&mut doc, e);
        }
        let via = case["via"].as_u64().unwrap_or(0) as u8;
        let setup = Setup::of(case, 25);
        let (d2, o2) = (&doc, &opsv);
        let out = simulate(
            w,
            &setup,
            &[opsv.len() + 1],
            || Ctx { doc: d2.clone(), via, ops: o2.clone(), world: Default::default() },
            body,
            None::<fn(&'static Ctx) -> ()>,
        )?;
        let what = |j: usize| if j == 0 { "loading".to_string() } else { format!("loaded; {:?}", opsv[j - 1]) };
        let names: Vec<&str> = edits.iter().map(|e| e.what.as_str()).collect();
        if !w.mute {
            for e in &edits {
                w.probe(&format!("damage: {}", e.what), 1);
            }
        }
        match out {
            Sim::Died(c, m, at, acts) => viol(case, &acts, &c, format!("{} (document damaged by: {names:?}): {m}", what(at.1))),
            Sim::Done(o) => {
                if o.end != "done" {
                    return viol(case, &o.acts, end_class(&o.end), format!("{} (document damaged by: {names:?})", o.end));
                }
                let mut sig = 0u64;
                let mut loaded = false;
                for (j, g) in o.res[0].iter().enumerate() {
                    match g {
                        Got::Panic(p) => return viol(case, &o.acts, if j == 0 { "panic-loading" } else { "panic-using" }, format!("{} (document damaged by: {names:?}): panicked: {p}", what(j))),
                        Got::Val(t) if t.starts_with("PANIC") => return viol(case, &o.acts, "panic-using", format!("{} (document damaged by: {names:?}): {t}", what(j))),
                        Got::Val(t) => {
                            if j == 0 {
                                loaded = t == "loaded";
                            }
                            sig = simrt::rng::mix2(sig, hash_str(t));
                        }
                        Got::Never => return Err("step missing".into()),
                    }
                }
                if !w.mute {
                    w.seen(sig ^ hash_str(&String::from_utf8_lossy(&doc)), loaded || sig != 0);
                    w.probe(if loaded { "damaged documents that still load" } else { "damaged documents refused" }, 1);
                }
                Ok(None)
            }
        }
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["edits", "ops", "terrs", "descs", "formats", "attrs", "leading", "refs", "Bundled"]
    }
    fn rule(&self) -> &'static str {
        "case = a generated document or territories of the bundled one, damaged by 1-6 edits (flipped bits, changed bytes, lost/repeated/overwritten/misplaced/torn blocks, lost/repeated/misplaced elements, damaged values, endlessly repeated blocks), loaded, and if it loads used by 8-40 operations with present and absent regions and codes. Distinct = distinct damaged document and results; all cases are damaged"
    }
    fn real(&self) -> &'static str {
        "phonenumber loader, Database and every operation taking a database (instrumented build of /repo), quick-xml, regex, nom"
    }
    fn stub(&self) -> &'static str {
        "the storage that damaged the document; heap placement, clock, entropy, environment"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a call that needs more than 25 s of CPU time counts as an endless loop", "thread stacks of 2 MiB, the default of std::thread"]
    }
}

#[allow(dead_code)]
pub fn full_len() -> usize {
    xml::full_text().len()
}
