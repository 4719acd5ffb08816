//! An abstract metadata document, its rendering as text (in many equivalent
//! ways) and what the accessors must say about it once loaded.
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use std::fmt::Write as _;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Doc {
    pub terrs: Vec<Terr>,
    /// seed of the rendering: white space, comments, quotes, order
    pub style: u64,
    pub plain: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Terr {
    pub id: String,
    pub code: u16,
    pub attrs: Vec<(String, String)>,
    pub descs: Vec<Desc>,
    pub formats: Vec<Fmt>,
    pub refs: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Desc {
    pub name: String,
    pub pattern: String,
    pub national: Option<String>,
    pub local: Option<String>,
    pub example: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Fmt {
    pub attrs: Vec<(String, String)>,
    pub leading: Vec<String>,
    pub format: String,
    pub intl: Option<String>,
}

const ELEMS: [&str; 13] = [
    "noInternationalDialling", "fixedLine", "mobile", "pager", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "uan", "voicemail", "emergency", "generalDesc",
];

fn regex(r: &mut Rng, depth: u32) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        match r.below(if depth == 0 { 7 } else { 11 }) {
            0 => s.push((b'0' + r.below(10) as u8) as char),
            1 => {
                let n = r.range(1, 10);
                let _ = write!(s, "\\d{{{n}}}");
            }
            2 => {
                let (a, b) = (r.range(1, 4), r.range(4, 9));
                let _ = write!(s, "\\d{{{a},{b}}}");
            }
            3 => {
                let (a, b) = (r.below(5), r.range(5, 9));
                let _ = write!(s, "[{a}-{b}]");
            }
            4 => s.push_str("[13579]?"),
            5 => s.push_str("\\d+"),
            6 => s.push_str("[^0]"),
            7 | 8 => {
                s.push_str("(?:");
                for i in 0..r.range(1, 3) {
                    if i > 0 {
                        s.push('|');
                    }
                    s.push_str(&regex(r, depth - 1));
                }
                s.push(')');
                if r.chance(1, 4) {
                    s.push('?');
                }
            }
            9 => {
                s.push('(');
                s.push_str(&regex(r, depth - 1));
                s.push(')');
            }
            _ => s.push_str("(?:0\n            |1\n          )"),
        }
    }
    s
}

fn lens(r: &mut Rng) -> String {
    let mut v = Vec::new();
    let mut x = r.range(2, 6);
    for _ in 0..if r.chance(1, 10) { r.range(4, 12) } else { r.range(1, 3) } {
        if r.chance(1, 3) {
            let y = x + r.below(6);
            v.push(format!("[{x}-{y}]"));
            x = y + r.range(1, 3);
        } else {
            v.push(x.to_string());
            x += r.range(1, 4);
        }
    }
    v.join(if r.chance(1, 8) { ", " } else { "," })
}
fn expand(s: &str) -> Vec<u16> {
    let mut v = Vec::new();
    for p in s.split(',').map(str::trim) {
        if let Some(q) = p.strip_prefix('[') {
            let (a, b) = q.trim_end_matches(']').split_once('-').unwrap();
            v.extend(a.parse::<u16>().unwrap()..=b.parse::<u16>().unwrap());
        } else {
            v.push(p.parse().unwrap());
        }
    }
    v
}

/// Text of some length, up to more than any buffer.
fn long(r: &mut Rng, unit: &str) -> String {
    let n = if r.chance(3, 4) { r.log(10, 2000) } else { r.log(2000, 150_000) };
    unit.repeat((n as usize / unit.len()).max(1))
}

fn word(r: &mut Rng) -> String {
    if r.chance(1, 60) {
        return long(r, "0 $1 é");
    }
    let w = [" ext. ", "#", "доб.", "0", "00", "8~10", "$1", "$2 $1", "a > b", "it's", " ", "-", "~", "0$1", "99$1", "\u{ff10}", "é", "x=1", "]]", "/>"];
    r.pick(&w).to_string()
}
/// text of an element: no leading or trailing white space
fn plain_text(r: &mut Rng) -> String {
    if r.chance(1, 40) {
        return long(r, "$1-$2.é");
    }
    let w = ["$1 $2", "$1-$2-$3", "$1", "$2 15-$3", "($1) $2", "$1 > $2", "tél $1", "\u{ff11}$1", "$1]] $2", "$1=\"$2\"", "it's $1", "$1/$2"];
    r.pick(&w).to_string()
}

fn desc(r: &mut Rng, name: &str) -> Desc {
    Desc {
        name: name.into(),
        pattern: regex(r, 2),
        national: if name == "generalDesc" || r.chance(1, 5) { None } else { Some(lens(r)) },
        local: if r.chance(1, 4) { Some(lens(r)) } else { None },
        example: if r.chance(2, 3) {
            let n = if r.chance(1, 12) { r.log(12, 400) } else { r.range(1, 12) };
            Some((0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect())
        } else {
            None
        },
    }
}

pub fn gen(r: &mut Rng) -> Doc {
    // now and then many of something
    let many = r.below(40);
    let nt = if many == 0 { r.log(7, 150) } else { r.log(1, 6) };
    let mut terrs: Vec<Terr> = Vec::new();
    let ncodes = r.range(1, nt);
    let codes: Vec<u16> = (0..ncodes).map(|_| if r.chance(1, 10) { *r.pick(&[0u16, 65535, 1000, 9999]) } else { r.range(1, 999) as u16 }).collect();
    let mut has_main: Vec<u16> = Vec::new();
    for i in 0..nt {
        let ids = ["US", "CA", "GB", "DE", "FR", "IT", "001", "RU", "AC", "ZW", "BR", "AR", "KZ", "CH"];
        let mut id = r.pick(&ids).to_string();
        if r.chance(1, 6) {
            id = format!("X{i}");
        }
        if terrs.iter().any(|t| t.id == id) {
            id = format!("Q{i}");
        }
        let code = *r.pick(&codes);
        let mut attrs: Vec<(String, String)> = Vec::new();
        let mut add = |k: &str, v: String| attrs.push((k.to_string(), v));
        if r.chance(1, 2) {
            add("internationalPrefix", regex(r, 1));
        }
        if r.chance(1, 4) {
            add("preferredInternationalPrefix", word(r));
        }
        if r.chance(1, 2) {
            add("nationalPrefix", if r.chance(1, 2) { "0".into() } else { word(r) });
        }
        if r.chance(1, 3) {
            add("nationalPrefixForParsing", regex(r, 2));
        }
        if r.chance(1, 4) {
            add("nationalPrefixTransformRule", word(r));
        }
        if r.chance(1, 4) {
            add("preferredExtnPrefix", word(r));
        }
        if r.chance(1, 3) {
            let v = r.chance(3, 4) && !has_main.contains(&code);
            if v {
                has_main.push(code);
            }
            add("mainCountryForCode", v.to_string());
        }
        if r.chance(1, 4) {
            add("leadingDigits", regex(r, 1));
        }
        if r.chance(1, 3) {
            add("mobileNumberPortableRegion", r.chance(2, 3).to_string());
        }
        if r.chance(1, 4) {
            add("nationalPrefixFormattingRule", word(r));
        }
        if r.chance(1, 4) {
            add("nationalPrefixOptionalWhenFormatting", r.chance(2, 3).to_string());
        }
        if r.chance(1, 5) {
            add("carrierCodeFormattingRule", word(r));
        }
        let mut descs = vec![desc(r, "generalDesc")];
        for e in ELEMS.iter().take(12) {
            if r.chance(1, if many == 0 { 30 } else { 3 }) {
                descs.push(desc(r, e));
            }
        }
        if r.chance(1, 3) {
            r.shuffle(&mut descs);
        }
        let mut formats = Vec::new();
        if r.chance(2, if many == 0 { 12 } else { 3 }) {
            for _ in 0..if many == 1 { r.log(5, 60) } else { r.range(1, 4) } {
                let mut a = vec![("pattern".to_string(), regex(r, 2))];
                if r.chance(1, 3) {
                    a.push(("nationalPrefixFormattingRule".into(), word(r)));
                }
                if r.chance(1, 4) {
                    a.push(("nationalPrefixOptionalWhenFormatting".into(), r.chance(2, 3).to_string()));
                }
                if r.chance(1, 4) {
                    a.push(("carrierCodeFormattingRule".into(), word(r)));
                }
                formats.push(Fmt {
                    attrs: a,
                    leading: (0..if many == 2 { r.log(3, 30) } else { r.below(4) }).map(|_| regex(r, 1)).collect(),
                    format: plain_text(r),
                    intl: match r.below(4) {
                        0 => Some("NA".into()),
                        1 => Some(plain_text(r)),
                        _ => None,
                    },
                });
            }
        }
        terrs.push(Terr {
            id,
            code,
            attrs,
            descs,
            formats,
            refs: if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| "http://www.itu.int/oth/T020200".to_string()).collect() } else { vec![] },
        });
    }
    Doc { terrs, style: r.next() & 0xffff_ffff, plain: r.chance(1, 4) }
}

struct R {
    r: Rng,
    o: String,
    plain: bool,
}
impl R {
    fn ws(&mut self) {
        if self.plain {
            self.o.push('\n');
            return;
        }
        let w = ["", "\n", "\n    ", " ", "\t", "\r\n  ", "\n\n"];
        let x = *self.r.pick(&w);
        self.o.push_str(x);
        if self.r.chance(1, 300) {
            let l = long(&mut self.r, " \n\t");
            self.o.push_str(&l);
        }
        if self.r.chance(1, 12) {
            let c = ["<!-- a comment -->", "<!---->", "<!-- <territory id=\"XX\"> -->", "<!-- > ' \" é -->", "<!-- ]]> </territories> -->", "<!-- - -- -->"];
            // "--" is not allowed inside comments
            let c = *self.r.pick(&c[..5]);
            if self.r.chance(1, 30) {
                let l = long(&mut self.r, "a long comment, <territory> é ");
                let _ = write!(self.o, "<!--{l}-->");
            } else {
                self.o.push_str(c);
            }
            self.o.push('\n');
        }
    }
    fn gap(&mut self) {
        if self.plain {
            self.o.push(' ');
            return;
        }
        let w = [" ", " ", "  ", "\n   ", "\t", " \n"];
        let x = *self.r.pick(&w);
        self.o.push_str(x);
        if self.r.chance(1, 400) {
            let l = long(&mut self.r, " \n");
            self.o.push_str(&l);
        }
    }
    fn attr(&mut self, k: &str, v: &str) {
        self.gap();
        let single = !self.plain && (v.contains('"') || (self.r.chance(1, 4) && !v.contains('\'')));
        let q = if single { '\'' } else { '"' };
        let _ = write!(self.o, "{k}={q}{v}{q}");
    }
    fn attrs(&mut self, v: Vec<(String, String)>) {
        let mut v = v;
        if !self.plain && self.r.chance(1, 3) {
            self.r.shuffle(&mut v);
        }
        for (k, x) in v {
            self.attr(&k, &x);
        }
        if !self.plain && self.r.chance(1, 10) {
            self.o.push(' ');
        }
    }
    fn elem(&mut self, k: &str, t: &str) {
        let sp = if !self.plain && self.r.chance(1, 12) { " " } else { "" };
        let _ = write!(self.o, "<{k}{sp}>{t}</{k}{sp}>");
    }
}

pub fn render(d: &Doc) -> String {
    let mut x = R { r: Rng::new(d.style), o: String::new(), plain: d.plain };
    if !d.plain {
        if x.r.chance(1, 8) {
            // a byte order mark, which a read boundary may split
            x.o.push('\u{feff}');
        }
        x.ws();
        match x.r.below(5) {
            0 => x.o.push_str("<!DOCTYPE phoneNumberMetadata [\n <!ELEMENT phoneNumberMetadata (territories)>\n <!ATTLIST territory id CDATA #REQUIRED>\n]>\n"),
            1 => x.o.push_str("<!-- leading -->\n"),
            2 => x.o.push_str("<!DOCTYPE phoneNumberMetadata>"),
            _ => {}
        }
    }
    x.o.push_str("<phoneNumberMetadata>");
    x.ws();
    // territories may be split over several groups
    let cut = if !d.plain && d.terrs.len() > 1 && x.r.chance(1, 6) { x.r.range(1, d.terrs.len() as u64 - 1) as usize } else { usize::MAX };
    x.o.push_str("<territories>");
    for (i, t) in d.terrs.iter().enumerate() {
        if i == cut {
            x.o.push_str("</territories>");
            x.ws();
            x.o.push_str("<territories>");
        }
        x.ws();
        x.o.push_str("<territory");
        let mut a = vec![("id".to_string(), t.id.clone()), ("countryCode".to_string(), t.code.to_string())];
        a.extend(t.attrs.iter().cloned());
        x.attrs(a);
        x.o.push('>');
        x.ws();
        if !t.refs.is_empty() {
            x.o.push_str("<references>");
            for u in &t.refs {
                x.ws();
                x.elem("sourceUrl", u);
            }
            x.ws();
            x.o.push_str("</references>");
            x.ws();
        }
        if !t.formats.is_empty() {
            x.o.push_str("<availableFormats>");
            for f in &t.formats {
                x.ws();
                x.o.push_str("<numberFormat");
                x.attrs(f.attrs.clone());
                x.o.push('>');
                x.ws();
                for l in &f.leading {
                    x.elem("leadingDigits", l);
                    x.ws();
                }
                x.elem("format", &f.format);
                x.ws();
                if let Some(i) = &f.intl {
                    x.elem("intlFormat", i);
                    x.ws();
                }
                x.o.push_str("</numberFormat>");
            }
            x.ws();
            x.o.push_str("</availableFormats>");
            x.ws();
        }
        for s in &t.descs {
            let _ = write!(x.o, "<{}>", s.name);
            x.ws();
            if s.national.is_some() || s.local.is_some() {
                x.o.push_str("<possibleLengths");
                let mut a = Vec::new();
                if let Some(n) = &s.national {
                    a.push(("national".to_string(), n.clone()));
                }
                if let Some(n) = &s.local {
                    a.push(("localOnly".to_string(), n.clone()));
                }
                x.attrs(a);
                x.o.push_str("/>");
                x.ws();
            }
            if let Some(e) = &s.example {
                x.elem("exampleNumber", e);
                x.ws();
            }
            let p = s.pattern.clone();
            x.elem("nationalNumberPattern", &p);
            x.ws();
            let _ = write!(x.o, "</{}>", s.name);
            x.ws();
        }
        x.o.push_str("</territory>");
    }
    x.ws();
    x.o.push_str("</territories>");
    x.ws();
    x.o.push_str("</phoneNumberMetadata>");
    if !d.plain && x.r.chance(1, 2) {
        x.o.push_str("\n<!-- trailing -->\n");
    }
    x.o
}

/// Offset just past the end tag of the root element.
pub fn root_end(text: &str) -> usize {
    let k = "</phoneNumberMetadata>";
    text.rfind(k).map(|i| i + k.len()).unwrap_or(text.len())
}

fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// In the format of `ops::meta_digest`.
fn terr_digest(t: &Terr) -> String {
    let get = |k: &str| t.attrs.iter().find(|a| a.0 == k).map(|a| a.1.clone());
    let rx = |k: &str| get(k).map(|v| strip(&v));
    let flag = |k: &str| get(k).is_some_and(|v| v == "true");
    let mut o = String::new();
    let _ = write!(
        o,
        "{} {} intl={:?} pref={:?} np={:?} ext={:?} npp={:?} rule={:?} main={} lead={:?} port={}",
        t.id,
        t.code,
        rx("internationalPrefix"),
        get("preferredInternationalPrefix"),
        get("nationalPrefix"),
        get("preferredExtnPrefix"),
        rx("nationalPrefixForParsing"),
        get("nationalPrefixTransformRule"),
        flag("mainCountryForCode"),
        rx("leadingDigits"),
        flag("mobileNumberPortableRegion")
    );
    let order = [
        ("generalDesc", "general"),
        ("fixedLine", "fixedLine"),
        ("mobile", "mobile"),
        ("tollFree", "tollFree"),
        ("premiumRate", "premiumRate"),
        ("sharedCost", "sharedCost"),
        ("personalNumber", "personalNumber"),
        ("voip", "voip"),
        ("pager", "pager"),
        ("uan", "uan"),
        ("emergency", "emergency"),
        ("voicemail", "voicemail"),
        ("noInternationalDialling", "noInternationalDialling"),
    ];
    for (e, n) in order {
        if let Some(d) = t.descs.iter().find(|d| d.name == e) {
            let _ = write!(
                o,
                "\n {n}: {:?} {:?} {:?} {:?}",
                strip(&d.pattern),
                d.national.as_ref().map(|s| expand(s)).unwrap_or_default(),
                d.local.as_ref().map(|s| expand(s)).unwrap_or_default(),
                d.example
            );
        }
    }
    let one = |o: &mut String, n: &str, f: &Fmt, text: &str| {
        let ga = |k: &str| f.attrs.iter().find(|a| a.0 == k).map(|a| a.1.clone());
        let _ = write!(
            o,
            "\n {n}: {:?} {:?} {:?} {:?} {} {:?}",
            strip(&ga("pattern").unwrap_or_default()),
            text,
            f.leading.iter().map(|l| strip(l)).collect::<Vec<_>>(),
            ga("nationalPrefixFormattingRule").or_else(|| get("nationalPrefixFormattingRule")),
            ga("nationalPrefixOptionalWhenFormatting").or_else(|| get("nationalPrefixOptionalWhenFormatting")).is_some_and(|v| v == "true"),
            ga("carrierCodeFormattingRule").or_else(|| get("carrierCodeFormattingRule")),
        );
    };
    for f in &t.formats {
        one(&mut o, "format", f, &f.format);
    }
    for f in &t.formats {
        match f.intl.as_deref() {
            Some("NA") => {}
            Some(i) => one(&mut o, "intl", f, i),
            None => one(&mut o, "intl", f, &f.format),
        }
    }
    o
}

/// In the format of `ops::db_digest`.
pub fn expected(d: &Doc) -> String {
    let mut ids: Vec<String> = d.terrs.iter().map(|t| format!("{} -> {}", t.id, t.code)).collect();
    ids.sort();
    let mut o = ids.join(",");
    let mut codes: Vec<u16> = d.terrs.iter().map(|t| t.code).collect();
    codes.sort();
    codes.dedup();
    for c in codes {
        let mut v: Vec<&Terr> = Vec::new();
        for t in d.terrs.iter().filter(|t| t.code == c) {
            if t.attrs.iter().any(|a| a.0 == "mainCountryForCode" && a.1 == "true") {
                v.insert(0, t);
            } else {
                v.push(t);
            }
        }
        let _ = write!(o, "\n{c}: {:?}", Some(v.iter().map(|t| t.id.as_str()).collect::<Vec<_>>()).unwrap());
        for t in v {
            o.push('\n');
            o.push_str(&terr_digest(t));
        }
    }
    o
}
