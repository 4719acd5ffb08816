use crate::worker::{Cfg, Run, Worker};
use serde_json::Value;
use simrt::rng::Rng;

pub mod build;
pub mod callback;
pub mod common;
pub mod conc;
pub mod damage;
pub mod history;
pub mod isolate;
pub mod leak;
pub mod load;
pub mod memory;
pub mod mixed;
pub mod sink;
pub mod store;

pub trait Prop {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// The zygote state worker `k` of round `round` runs from.
    fn cfg(&self, r: &mut Rng, k: usize, round: usize) -> Cfg {
        default_cfg(r, k, round, false)
    }
    /// Case number `idx`; a function of the generator and the code alone.
    fn gen(&self, w: &mut Worker, r: &mut Rng, idx: u64) -> Option<Value>;
    /// Execute the case in simulated processes and decide.
    fn run(&self, w: &mut Worker, case: &Value) -> Run;
    /// Array-valued keys whose elements may be dropped when minimising.
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["threads", "ops", "script", "history", "warm", "steps", "faults", "changes"]
    }
    /// How cases are made and what makes one count as non-trivial.
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

/// Country codes with unusual metadata, mixed into the reduced databases.
pub const SPECIAL: [u16; 26] = [1, 7, 39, 44, 47, 49, 52, 54, 55, 57, 61, 64, 81, 86, 91, 212, 262, 290, 358, 378, 590, 599, 800, 808, 881, 979];

/// Codes by something their metadata has and most others have not.
fn features() -> &'static [Vec<u16>] {
    static F: std::sync::OnceLock<Vec<Vec<u16>>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let t = crate::xml::terrs();
        let with = |f: &dyn Fn(&crate::xml::Terr) -> bool| {
            let mut v: Vec<u16> = t.iter().filter(|x| f(x)).map(|x| x.code).collect();
            v.sort();
            v.dedup();
            v
        };
        let head = |x: &crate::xml::Terr, k: &str| x.text[..x.text.find('>').unwrap()].contains(k);
        let mut v = vec![
            with(&|x| t.iter().filter(|y| y.code == x.code).count() > 1),
            with(&|x| head(x, "preferredExtnPrefix")),
            with(&|x| head(x, "nationalPrefixTransformRule")),
            with(&|x| head(x, "leadingDigits")),
            with(&|x| head(x, "preferredInternationalPrefix")),
            with(&|x| head(x, "mobileNumberPortableRegion") && x.nformats > 6),
            with(&|x| x.text.contains("carrierCodeFormattingRule")),
            with(&|x| x.text.contains("<intlFormat>NA")),
            with(&|x| x.text.contains("nationalPrefixOptionalWhenFormatting")),
            with(&|x| x.id == "001"),
            with(&|x| x.nformats == 0),
            with(&|x| !x.npp.is_empty() && x.np.is_empty()),
        ];
        v.retain(|x| !x.is_empty());
        v
    })
}

pub fn subset(r: &mut Rng, n: usize) -> Vec<u16> {
    let all = crate::xml::codes();
    let mut v = Vec::new();
    let mut guard = 0;
    if n > 1 && r.chance(1, 2) {
        v.push(*r.pick(&features()[0]));
    }
    while v.len() < n && guard < 1000 {
        guard += 1;
        let c = match r.below(3) {
            0 => *r.pick(&SPECIAL),
            1 => {
                let f = r.pick(features());
                *r.pick(f)
            }
            _ => *r.pick(&all),
        };
        if all.contains(&c) && !v.contains(&c) {
            v.push(c);
        }
    }
    v.sort();
    v
}

pub fn default_cfg(r: &mut Rng, k: usize, round: usize, cold: bool) -> Cfg {
    // one worker in eight simulates with the complete database
    if k == round % 8 && !cold {
        return Cfg { codes: None, varied: 0, cold };
    }
    let n = if cold { *r.pick(&[1, 1, 2, 2, 3, 4]) } else { r.range(2, 9) } as usize;
    let codes = subset(r, n);
    Cfg { codes: Some(codes), varied: if r.chance(1, 2) { r.next() | 1 } else { 0 }, cold }
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(conc::Conc::C01), Box::new(conc::Conc::C02), Box::new(conc::Conc::C03), Box::new(history::History), Box::new(isolate::Isolate), Box::new(load::Load::C06), Box::new(load::Load::C07), Box::new(damage::Damage), Box::new(sink::Sink), Box::new(callback::Callback), Box::new(store::Store), Box::new(build::Build), Box::new(leak::Leak), Box::new(mixed::Mixed), Box::new(memory::Memory)]
}
pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    all().into_iter().find(|p| p.id() == id)
}
