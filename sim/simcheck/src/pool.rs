//! Generation of inputs and operations.
use crate::regen;
use crate::xml::{self, Terr};
use ops::Op;
use simrt::rng::Rng;

/// Kinds `op_number_kind` tells apart.
pub const NUMBER_OPS: u64 = 12;

pub struct Pool {
    pub terrs: Vec<Terr>,
    pub all_ids: Vec<String>,
}

fn digits(r: &mut Rng, n: u64) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

fn script(s: &str, base: u32) -> String {
    s.chars().map(|c| if c.is_ascii_digit() { char::from_u32(base + (c as u32 - 48)).unwrap() } else { c }).collect()
}

/// A number made from the patterns of the territory.
fn sampled(r: &mut Rng, t: &Terr) -> Option<String> {
    if t.leads.is_empty() || r.chance(2, 3) {
        let p = t.pats.get(r.below(t.pats.len().max(1) as u64) as usize)?;
        return regen::sample(p, r).filter(|s| !s.is_empty());
    }
    // begins like a format, as long as an example
    let s = regen::sample(r.pick(&t.leads), r)?;
    let n = r.pick(&t.examples).len().saturating_sub(s.len());
    Some(s + &digits(r, n as u64))
}

impl Pool {
    pub fn new(codes: &Option<Vec<u16>>, varied: u64) -> Pool {
        let all = xml::terrs();
        let terrs: Vec<Terr> = match codes {
            None => all.to_vec(),
            Some(c) => {
                let v: Vec<Terr> = all.iter().filter(|t| c.contains(&t.code)).cloned().collect();
                if varied == 0 {
                    v
                } else {
                    let mut r = Rng::new(varied);
                    v.iter().map(|t| if r.chance(3, 4) { xml::parse_terr(&vary(&mut r, &t.text)) } else { t.clone() }).collect()
                }
            }
        };
        let all_ids = all.iter().map(|t| t.id.clone()).collect();
        Pool { terrs, all_ids }
    }

    pub fn national(&self, r: &mut Rng, t: &Terr) -> String {
        if t.examples.is_empty() || r.chance(1, 8) {
            let n = r.range(2, 13);
            return digits(r, n);
        }
        if r.chance(1, 4) {
            if let Some(s) = sampled(r, t) {
                return s;
            }
        }
        let mut s: Vec<char> = r.pick(&t.examples).chars().collect();
        match r.below(10) {
            0 => {
                s.pop();
            }
            1 => s.push((b'0' + r.below(10) as u8) as char),
            2 => {
                let i = r.below(s.len() as u64) as usize;
                s[i] = (b'0' + r.below(10) as u8) as char;
            }
            3 | 4 => {
                // another subscriber of the same kind
                let k = s.len().min(4);
                let n = s.len();
                for c in s.iter_mut().skip(n - k) {
                    *c = (b'0' + r.below(10) as u8) as char;
                }
            }
            _ => {}
        }
        s.into_iter().collect()
    }

    fn punctuate(&self, r: &mut Rng, s: &str) -> String {
        let seps = [" ", "-", ".", "(", ")", "/", "\u{2013}", "\u{00a0}", "~", "  "];
        let mut o = String::new();
        for (i, c) in s.chars().enumerate() {
            if i > 0 && r.chance(1, 4) {
                o.push_str(r.pick(&seps));
            }
            o.push(c);
        }
        o
    }

    /// A string and the reference region to parse it with.
    pub fn input(&self, r: &mut Rng) -> (String, Option<String>) {
        let t = r.pick(&self.terrs);
        let nat = self.national(r, t);
        let mut hint = Some(t.id.clone());
        let mut s = match r.below(16) {
            0..=4 => {
                if r.chance(2, 3) {
                    hint = None;
                }
                format!("+{}{}", t.code, nat)
            }
            5 => format!("+{} {}{}", t.code, t.np, nat),
            6 | 7 => format!("{}{}", t.np, nat),
            8 => nat.clone(),
            9 => format!("{}{}", t.code, nat),
            10 => {
                let idd = ["00", "011", "0011", "810", "001", "119"];
                let drawn = regen::sample(&t.idd, r).filter(|p| !p.is_empty() && r.chance(1, 2));
                let p: &str = if let Some(p) = &drawn { p } else if !t.idd.is_empty() && t.idd.bytes().all(|b| b.is_ascii_digit()) && r.chance(1, 2) { &t.idd } else { r.pick(&idd) };
                let o = r.pick(&self.terrs);
                if r.chance(1, 3) {
                    hint = None;
                }
                format!("{p}{}{nat}", o.code)
            }
            11 => {
                // carrier selection code, as in the national prefix for parsing of some countries
                if let Some(p) = regen::sample(&t.npp, r).filter(|p| !p.is_empty() && r.chance(3, 4)) {
                    return (format!("{p}{nat}"), hint);
                }
                let c = ["15", "21", "31", "0", "1", "170", "12", "9"];
                format!("{}{}{}", t.np, r.pick(&c), nat)
            }
            12 => {
                hint = if r.chance(1, 2) { None } else { hint };
                match r.below(4) {
                    0 => format!("tel:{nat};phone-context=+{}", t.code),
                    1 => format!("tel:+{}-{nat}", t.code),
                    2 => format!("tel:{nat};phone-context=example.com"),
                    _ => format!("tel:{}{nat};phone-context=+{};isub=1;x=%20y", t.np, t.code),
                }
            }
            13 => {
                // letters
                let words = ["FLOWERS", "abcdefg", "CALL-NOW", "xyz", "Tax", "ab"];
                let k = nat.len().min(3);
                format!("{}{}", &nat[..k], r.pick(&words))
            }
            14 => {
                hint = None;
                format!("++{}{}", t.code, nat)
            }
            _ => {
                // garbage
                let g = ["", "+", "12", "tel:", "abc", "+1", "++", "0", "00000000", "#*#", "x123", "+999123456789", "12345678901234567890123", "\u{ff0b}\u{ff11}", "é1234567", "1 2 3", "+0 123 456 789", "tel:;phone-context=+1", "011", "00"];
                if r.chance(1, 2) {
                    hint = None;
                }
                r.pick(&g).to_string()
            }
        };
        if r.chance(1, 3) {
            s = self.punctuate(r, &s);
        }
        if r.chance(1, 8) {
            let b = [0xff10u32, 0x0660, 0x06f0];
            s = script(&s, *r.pick(&b));
        }
        if r.chance(1, 6) {
            let e = [" ext. 123", " x7", "#42", ";ext=0099", " доб. 5", " extension 4567", "~9", " ext 1234567", " x302/x2303"];
            s.push_str(r.pick(&e));
        }
        if r.chance(1, 20) {
            hint = Some(r.pick(&self.all_ids).clone());
        }
        if r.chance(1, 30) {
            s = format!("call me at {s} tomorrow");
        }
        (s, hint)
    }

    /// A number of this territory that most likely exists.
    fn subscriber(&self, r: &mut Rng, t: &Terr) -> String {
        if t.examples.is_empty() {
            return self.national(r, t);
        }
        if r.chance(1, 4) {
            if let Some(s) = sampled(r, t) {
                return s;
            }
        }
        let mut s: Vec<char> = r.pick(&t.examples).chars().collect();
        if r.chance(1, 2) {
            let (k, n) = (r.range(1, 4) as usize, s.len());
            for c in s.iter_mut().skip(n.saturating_sub(k)) {
                *c = (b'0' + r.below(10) as u8) as char;
            }
        }
        s.into_iter().collect()
    }

    fn spell(&self, r: &mut Rng, t: &Terr, nat: &str, ext: bool) -> (String, Option<String>) {
        let id = Some(t.id.clone());
        let (mut s, h) = match r.below(10) {
            0..=4 => (format!("+{}{}", t.code, nat), if r.chance(2, 3) { None } else { id }),
            5 => (format!("{}{}", t.np, nat), id),
            6 => (nat.to_string(), id),
            7 => (format!("tel:{nat};phone-context=+{}", t.code), None),
            8 => (script(&format!("+{}{}", t.code, nat), *r.pick(&[0xff10u32, 0x0660, 0x06f0])), None),
            _ => (self.punctuate(r, &format!("+{} {}", t.code, nat)), if r.chance(1, 2) { None } else { Some(r.pick(&self.terrs).id.clone()) }),
        };
        if ext {
            let n = r.range(1, 9999);
            if s.starts_with("tel:") {
                s = s.replacen(';', &format!(";ext={n};"), 1);
            } else {
                s.push_str(&format!("{}{n}", r.pick(&[" ext. ", " x", ";ext=", "#"])));
            }
        }
        (s, h)
    }

    /// A territory, often one with something unusual about it.
    pub fn peculiar(&self, r: &mut Rng) -> &Terr {
        if r.chance(1, 2) {
            let k = r.below(9);
            let has = |t: &Terr, a: &str| t.text.contains(a);
            let v: Vec<&Terr> = self
                .terrs
                .iter()
                .filter(|t| match k {
                    0 => t.npp.contains('(') && has(t, "nationalPrefixTransformRule"),
                    1 => has(t, "carrierCodeFormattingRule"),
                    2 => t.text[..t.text.find('>').unwrap_or(0)].contains("leadingDigits"),
                    3 => has(t, "preferredExtnPrefix"),
                    4 => has(t, "<intlFormat>"),
                    5 => !t.npp.is_empty(),
                    6 => t.np.is_empty(),
                    7 => t.nformats == 0 || t.id == "001",
                    _ => self.terrs.iter().filter(|u| u.code == t.code).count() > 1,
                })
                .collect();
            if !v.is_empty() {
                return *r.pick(&v);
            }
        }
        r.pick(&self.terrs)
    }

    /// Four inputs which have something in common, or not.
    pub fn family(&self, r: &mut Rng) -> Vec<(String, Option<String>)> {
        let t = self.peculiar(r).clone();
        let groups = t.npp.contains('(');
        let kind = if groups && r.chance(1, 3) { 10 } else { r.below(10) };
        let ext = r.chance(if t.text[..t.text.find('>').unwrap_or(0)].contains("preferredExtnPrefix") { 3 } else { 1 }, 4);
        // regions which share a country code
        let multi: Vec<&Terr> = self.terrs.iter().filter(|t| self.terrs.iter().filter(|u| u.code == t.code).count() > 1).collect();
        let nat = self.subscriber(r, &t);
        let shared = if multi.is_empty() { t.code } else { r.pick(&multi).code };
        let sharing: Vec<&Terr> = self.terrs.iter().filter(|t| t.code == shared).collect();
        (0..4)
            .map(|_| match kind {
                0..=2 => self.input(r),
                3 | 4 => {
                    let t = *r.pick(&sharing);
                    let n = self.subscriber(r, t);
                    self.spell(r, t, &n, ext)
                }
                5 => {
                    let n = self.subscriber(r, &t);
                    self.spell(r, &t, &n, ext)
                }
                6 | 10 if !t.npp.is_empty() && (kind == 10 || r.chance(1, 2)) => {
                    // dialled within the country, with or without a carrier code
                    let n = self.subscriber(r, &t);
                    let p = regen::sample(&t.npp, r).unwrap_or_default();
                    // some patterns take the subscriber along
                    let s = if p.len() >= n.len() && r.chance(3, 4) { p } else { format!("{p}{n}") };
                    (s, Some(t.id.clone()))
                }
                6 => {
                    let e = r.chance(1, 2);
                    self.spell(r, &t, &nat, e)
                }
                7 => {
                    let t = r.pick(&self.terrs).clone();
                    let n = self.subscriber(r, &t);
                    self.spell(r, &t, &n, true)
                }
                _ => {
                    let t = r.pick(&self.terrs).clone();
                    let n = self.subscriber(r, &t);
                    (format!("+{}{n}", t.code), None)
                }
            })
            .collect()
    }

    pub fn region(&self, r: &mut Rng) -> String {
        if r.chance(1, 6) {
            r.pick(&self.all_ids).clone()
        } else {
            r.pick(&self.terrs).id.clone()
        }
    }
    pub fn code(&self, r: &mut Rng) -> u16 {
        if r.chance(1, 8) {
            *r.pick(&[0u16, 1, 7, 44, 800, 999, 65535])
        } else {
            r.pick(&self.terrs).code
        }
    }

    /// An operation that needs no ready-made number.
    pub fn op_plain(&self, r: &mut Rng, db: usize) -> Op {
        match r.below(12) {
            0..=4 => {
                let (s, hint) = self.input(r);
                Op::All { db, hint, s }
            }
            5..=7 => {
                let (s, hint) = self.input(r);
                Op::Parse { db, hint, s }
            }
            8 => Op::FromStr { s: self.input(r).0 },
            9 => Op::Viable { s: self.input(r).0 },
            10 => Op::ById { db, id: self.region(r) },
            _ => {
                if r.chance(1, 2) {
                    Op::ByCode { db, code: self.code(r) }
                } else {
                    Op::Region { db, code: self.code(r) }
                }
            }
        }
    }

    /// An operation on a ready-made number (JSON).
    pub fn op_number(&self, r: &mut Rng, db: usize, n: String, other: &str) -> Op {
        let k = r.below(NUMBER_OPS);
        self.op_number_kind(r, k, db, n, other)
    }
    pub fn op_number_kind(&self, r: &mut Rng, k: u64, db: usize, n: String, other: &str) -> Op {
        match k {
            0..=4 => Op::Format { db, n, mode: r.below(4) as u8 },
            5 => Op::Display { n },
            6 => Op::Valid { db, n },
            7 => Op::Type { db, n },
            8 => Op::Country { n },
            9 => Op::Meta { db, n },
            10 => {
                if r.chance(1, 2) {
                    Op::Serde { n, fmt: r.below(ops::NFMT as u64) as u8 }
                } else {
                    Op::FormatWith { db, n, mode: r.below(4) as u8, region: self.region(r), k: r.below(6) as usize }
                }
            }
            _ => Op::Eq { a: n, b: other.to_string() },
        }
    }
}

/// Byte ranges of the elements `name`.
pub fn elements(t: &str, name: &str) -> Vec<(usize, usize)> {
    let (a, b) = (format!("<{name}"), format!("</{name}>"));
    let mut v = Vec::new();
    let mut p = 0;
    while let Some(i) = t[p..].find(&a) {
        let i = p + i;
        let c = t.as_bytes().get(i + a.len());
        if !matches!(c, Some(b'>') | Some(b' ') | Some(b'\n') | Some(b'\t')) {
            p = i + a.len();
            continue;
        }
        let Some(j) = t[i..].find(&b) else { break };
        v.push((i, i + j + b.len()));
        p = i + j + b.len();
    }
    v
}

/// The attribute of the territory set to another value, or added.
fn set_attr(t: &str, name: &str, value: &str) -> String {
    let h = t.find('>').unwrap_or(0);
    let k = format!(" {name}=\"");
    match t[..h].find(&k) {
        Some(i) => {
            let i = i + k.len();
            let j = i + t[i..].find('"').unwrap();
            format!("{}{value}{}", &t[..i], &t[j..])
        }
        None => t.replacen("<territory ", &format!("<territory {name}=\"{value}\" "), 1),
    }
}

/// A variant of a territory: the same number of everything, different content.
fn vary_one(r: &mut Rng, t: &str) -> String {
    let k = r.below(17);
    vary_kind(r, t, k)
}

fn vary_kind(r: &mut Rng, t: &str, kind: u64) -> String {
    let t = t.to_string();
    match kind {
        0 => t.replace("$1 $2", "$1.$2"),
        1 => t.replace("$2 $3", "$2_$3"),
        2 => t.replace("internationalPrefix=\"00\"", "internationalPrefix=\"99\"").replace("internationalPrefix=\"011\"", "internationalPrefix=\"77\""),
        3 => {
            let d = r.below(10).to_string();
            set_attr(&t, "nationalPrefix", &d)
        }
        4 => {
            // other lengths
            let i = r.below(10);
            t.replace(&format!("national=\"{i}\""), &format!("national=\"{}\"", i + 1))
        }
        5 => drop_element(&t, *r.pick(&["mobile", "tollFree", "premiumRate", "voip"])),
        6 => {
            // mobile and fixed lines swapped
            t.replace("<mobile>", "<\u{1}>").replace("</mobile>", "</\u{1}>").replace("<fixedLine>", "<mobile>").replace("</fixedLine>", "</mobile>").replace("<\u{1}>", "<fixedLine>").replace("</\u{1}>", "</fixedLine>")
        }
        7 | 8 => set_attr(&t, "preferredExtnPrefix", r.pick(&[" #", " x", "~ ext. ", " int ", ";"])),
        9 => t.replace("[2-9]", "[3-9]").replace("[1-9]", "[2-9]").replace("\\d{7}", "\\d{6,7}"),
        10 | 11 => {
            // a format loses its leading digits, and so applies always
            let f = elements(&t, "numberFormat");
            if f.is_empty() {
                return t;
            }
            let (i, j) = if r.chance(1, 2) { f[0] } else { *r.pick(&f) };
            let mut x = t[i..j].to_string();
            while let Some((a, b)) = elements(&x, "leadingDigits").pop() {
                x.replace_range(a..b, "");
            }
            format!("{}{x}{}", &t[..i], &t[j..])
        }
        12 | 13 => {
            // two formats change places
            let f = elements(&t, "numberFormat");
            if f.len() < 2 {
                return t;
            }
            let k = r.below(f.len() as u64 - 1) as usize;
            let ((a, b), (c, d)) = (f[k], f[k + 1]);
            format!("{}{}{}{}{}", &t[..a], &t[c..d], &t[b..c], &t[a..b], &t[d..])
        }
        14 => {
            if t.contains("nationalPrefixFormattingRule=\"") {
                let v = *r.pick(&["($NP$FG)", "$NP $FG", "$FG", "($FG)", "$NP-$FG"]);
                let mut o = String::new();
                let mut rest = &t[..];
                while let Some(i) = rest.find("nationalPrefixFormattingRule=\"") {
                    let i = i + 30;
                    let j = i + rest[i..].find('"').unwrap();
                    o.push_str(&rest[..i]);
                    o.push_str(v);
                    rest = &rest[j..];
                }
                o + rest
            } else {
                set_attr(&t, "nationalPrefixFormattingRule", "($NP$FG)")
            }
        }
        15 => {
            let f = elements(&t, "numberFormat");
            if f.is_empty() {
                return t;
            }
            let i = r.pick(&f).0;
            let h = i + t[i..].find('>').unwrap();
            if t[i..h].contains("carrierCodeFormattingRule") {
                return t;
            }
            format!("{} carrierCodeFormattingRule=\"$NP $CC $FG\"{}", &t[..i + 13], &t[i + 13..])
        }
        _ => {
            // formats no longer optional, or no longer the same abroad
            let f = elements(&t, "intlFormat");
            match f.last() {
                Some((a, b)) => format!("{}{}", &t[..*a], &t[*b..]),
                None => t.replacen("</format>", "</format><intlFormat>NA</intlFormat>", 1),
            }
        }
    }
}

/// A variant in which one part of every territory differs: its formats, its
/// prefixes or its descriptors.
pub fn vary_part(r: &mut Rng, text: &str) -> String {
    let kinds: &[u64] = *r.pick(&[&[0, 1, 10, 11, 12, 13, 14, 15, 16][..], &[2, 3, 7], &[4, 5, 6, 9]]);
    let mut t = text.to_string();
    for (i, j) in elements(text, "territory").into_iter().rev() {
        let k = *r.pick(kinds);
        t = format!("{}{}{}", &t[..i], vary_kind(r, &t[i..j], k), &t[j..]);
    }
    t
}

pub fn vary(r: &mut Rng, text: &str) -> String {
    let mut t = text.to_string();
    for _ in 0..r.range(1, 4) {
        // a document: one of its territories
        let e = elements(&t, "territory");
        if e.is_empty() {
            return t;
        }
        let (i, j) = *r.pick(&e);
        t = format!("{}{}{}", &t[..i], vary_one(r, &t[i..j]), &t[j..]);
    }
    t
}

/// The territory without some of its kinds of number: quick to load.
pub fn slim(r: &mut Rng, text: &str) -> String {
    // searching for any Unicode digit takes long to prepare
    let mut t = text.replace("\\d", "[0-9]");
    for n in ["noInternationalDialling", "pager", "personalNumber", "sharedCost", "uan", "voicemail", "voip", "premiumRate", "tollFree", "mobile"] {
        if r.chance(if n == "mobile" { 1 } else { 5 }, 6) {
            t = drop_element(&t, n);
        }
    }
    t
}

/// The territory with hardly anything left: very quick to load.
pub fn tiny(text: &str) -> String {
    let mut t = text.replace("\\d", "[0-9]");
    for n in ["noInternationalDialling", "pager", "personalNumber", "sharedCost", "uan", "voicemail", "voip", "premiumRate", "tollFree", "mobile"] {
        t = drop_element(&t, n);
    }
    while elements(&t, "numberFormat").len() > 3 {
        let (i, j) = elements(&t, "numberFormat").pop().unwrap();
        t.replace_range(i..j, "");
    }
    t
}

/// The same territories, two of them under each other's names.
pub fn exchange(r: &mut Rng, texts: &mut [String]) {
    if texts.len() < 2 {
        return;
    }
    let i = r.below(texts.len() as u64 - 1) as usize;
    let (a, b) = (xml::parse_terr(&texts[i]), xml::parse_terr(&texts[i + 1]));
    if r.chance(1, 2) {
        texts[i] = set_attr(&texts[i], "id", &b.id);
        texts[i + 1] = set_attr(&texts[i + 1], "id", &a.id);
    } else {
        texts[i] = set_attr(&texts[i], "countryCode", &b.code.to_string());
        texts[i + 1] = set_attr(&texts[i + 1], "countryCode", &a.code.to_string());
    }
}

fn drop_element(t: &str, name: &str) -> String {
    let (a, b) = (format!("<{name}>"), format!("</{name}>"));
    match (t.find(&a), t.find(&b)) {
        (Some(i), Some(j)) if i < j => format!("{}{}", &t[..i], &t[j + b.len()..]),
        _ => t.to_string(),
    }
}
