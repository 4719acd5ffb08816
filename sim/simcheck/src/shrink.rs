//! Minimisation: drop elements of the arrays a case is made of while the same
//! class of violation persists.
use crate::props::Prop;
use crate::worker::{Violation, Worker};
use serde_json::Value;

type Path = Vec<String>;

fn paths(v: &Value, keys: &[&str], cur: &mut Path, out: &mut Vec<Path>, in_key: bool) {
    match v {
        Value::Array(a) => {
            if in_key && !a.is_empty() {
                out.push(cur.clone());
            }
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                // arrays of arrays under a shrinkable key shrink at both levels
                paths(x, keys, cur, out, in_key && x.is_array() && x.as_array().is_some_and(|b| b.iter().any(|e| !e.is_number())));
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                paths(x, keys, cur, out, keys.contains(&k.as_str()));
                cur.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &Path) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(c)
}

pub struct Shrunk {
    pub case: Value,
    pub v: Violation,
    pub tries: u64,
}

pub fn shrink(prop: &dyn Prop, w: &mut Worker, case: &Value, v: Violation, secs: f64) -> Shrunk {
    let end = simrt::sys::real_now() + (secs * 1e9) as u64;
    let class = v.class.clone();
    w.mute = true;
    let mut tries = 0;
    let mut best = case.clone();
    let mut bv = v.clone();
    let attempt = |w: &mut Worker, c: &Value, tries: &mut u64| -> Option<Violation> {
        *tries += 1;
        // a case made smaller need not make sense
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop.run(w, c)));
        match r.unwrap_or(Ok(None)) {
            Ok(Some(x)) if x.class == class => Some(x),
            _ => None,
        }
    };
    // the most explicit form first: the recorded schedule
    if let Some(r) = v.refined.clone() {
        if let Some(x) = attempt(w, &r, &mut tries) {
            best = r;
            bv = x;
        }
    }
    let keys = prop.shrink_keys();
    loop {
        let mut progress = false;
        let mut ps = Vec::new();
        paths(&best, keys, &mut Vec::new(), &mut ps, false);
        ps.sort_by_key(|p| p.len());
        for p in ps {
            let mut n = match at(&mut best, &p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = n;
            while chunk >= 1 && n > 0 {
                let mut i = 0;
                while i < n {
                    if simrt::sys::real_now() > end {
                        w.mute = false;
                        return Shrunk { case: best, v: bv, tries };
                    }
                    let mut c = best.clone();
                    let len;
                    if let Some(Value::Array(a)) = at(&mut c, &p) {
                        let j = (i + chunk).min(a.len());
                        a.drain(i..j);
                        len = a.len();
                    } else {
                        break;
                    }
                    if let Some(x) = attempt(w, &c, &mut tries) {
                        best = c;
                        bv = x;
                        n = len;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.min(n.max(1)).div_ceil(2);
            }
        }
        if !progress {
            break;
        }
    }
    w.mute = false;
    Shrunk { case: best, v: bv, tries }
}
