//! The bundled metadata document as text, independent of the library's loader.
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Terr {
    pub id: String,
    pub code: u16,
    pub idd: String,
    pub np: String,
    pub npp: String,
    pub examples: Vec<String>,
    pub nformats: usize,
    /// patterns of the descriptors, and the digits the formats begin with
    pub pats: Vec<String>,
    pub leads: Vec<String>,
    pub text: String,
}

pub fn repo() -> String {
    std::env::var("SIM_REPO").unwrap_or_else(|_| "/repo".into())
}

fn attr(head: &str, name: &str) -> Option<String> {
    let k = format!(" {name}=\"");
    let i = head.find(&k)? + k.len();
    let j = head[i..].find('"')? + i;
    Some(head[i..j].to_string())
}

pub fn full_text() -> &'static str {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| std::fs::read_to_string(format!("{}/assets/PhoneNumberMetadata.xml", repo())).expect("metadata document"))
}

pub fn parse_terr(text: &str) -> Terr {
    let he = text.find('>').unwrap();
    let head: String = text[..he].split_whitespace().collect::<Vec<_>>().join(" ");
    // attribute values may hold spaces; only the plain ones are used
    let texts = |tag: &str| {
        let mut v = Vec::new();
        let mut q = 0;
        while let Some(k) = text[q..].find(tag) {
            let s = q + k + tag.len();
            let Some(z) = text[s..].find('<').map(|z| s + z) else { break };
            v.push(text[s..z].trim().to_string());
            q = z;
        }
        v
    };
    let ex = texts("<exampleNumber>");
    let pats = texts("<nationalNumberPattern>");
    let leads = texts("<leadingDigits>");
    Terr {
        id: attr(&head, "id").unwrap_or_default(),
        code: attr(&head, "countryCode").and_then(|x| x.parse().ok()).unwrap_or(0),
        idd: attr(&head, "internationalPrefix").unwrap_or_default(),
        np: attr(&head, "nationalPrefix").unwrap_or_default(),
        npp: attr(&head, "nationalPrefixForParsing").unwrap_or_default(),
        examples: ex,
        nformats: text.matches("<numberFormat").count(),
        pats,
        leads,
        text: text.to_string(),
    }
}

pub fn terrs() -> &'static [Terr] {
    static T: OnceLock<Vec<Terr>> = OnceLock::new();
    T.get_or_init(|| {
        let t = full_text();
        let mut v = Vec::new();
        let mut p = 0;
        while let Some(i) = t[p..].find("<territory ") {
            let i = p + i;
            let e = i + t[i..].find("</territory>").expect("territory end") + "</territory>".len();
            v.push(parse_terr(&t[i..e]));
            p = e;
        }
        v
    })
}

pub fn codes() -> Vec<u16> {
    let mut v: Vec<u16> = terrs().iter().map(|t| t.code).collect();
    v.sort();
    v.dedup();
    v
}

pub fn doc(texts: &[String]) -> String {
    let mut s = String::from("<phoneNumberMetadata>\n  <territories>\n");
    for t in texts {
        s.push_str("    ");
        s.push_str(t);
        s.push('\n');
    }
    s.push_str("  </territories>\n</phoneNumberMetadata>\n");
    s
}

pub fn doc_for(codes: &[u16]) -> String {
    let v: Vec<String> = terrs().iter().filter(|t| codes.contains(&t.code)).map(|t| t.text.clone()).collect();
    doc(&v)
}
