//! Minimisation: workload, then environment, then decisions and faults.
use crate::ex::{Ex, PhaseRec};
use crate::{run_spec, rng};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub struct Target { pub prop: String, pub class: String, pub until: Instant }
impl Target {
    fn hits(&self, ex: &Ex) -> bool { ex.harness.is_empty() && ex.viol.iter().any(|v| v.prop == self.prop && v.class == self.class) }
    fn late(&self) -> bool { Instant::now() > self.until }
}

/// every one-step simplification of a value, most drastic first
fn simpler(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Bool(true) => out.push(json!(false)),
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                if u > 0 { for c in [0, 1, u / 2, u - 1] { if c < u && !out.contains(&json!(c)) { out.push(json!(c)); } } }
            } else if let Some(f) = n.as_f64() {
                for c in [0.0, 1.0, f.trunc(), (f * 4.).round() / 4.] { if c != f && !(f == 0.0) && c.abs() <= f.abs().max(1.) && !(f.trunc() == f && c == 1.0 && f.abs() <= 1.) { out.push(json!(c)); } }
            }
        }
        Value::String(s) if !s.is_empty() && s.len() > 8 => { out.push(json!(s[..s.len() / 2].to_string())); }
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone(); b.drain(i..(i + size).min(n)); out.push(Value::Array(b));
                    i += size;
                }
                size /= 2;
            }
            for i in 0..n { let mut c = Vec::new(); simpler(&a[i], &mut c); for x in c { let mut b = a.clone(); b[i] = x; out.push(Value::Array(b)); } }
        }
        Value::Object(o) => {
            for (k, x) in o {
                let mut c = Vec::new(); simpler(x, &mut c);
                if x.is_number() || x.is_array() || x.is_object() { if k.ends_with("_opt") { c.insert(0, Value::Null); } }
                for y in c { let mut b = o.clone(); b.insert(k.clone(), y); out.push(Value::Object(b)); }
            }
        }
        _ => {}
    }
}

pub fn minimise(spec: &Value, t: &Target) -> (Value, Option<(Vec<PhaseRec>, Ex)>) {
    let mut best = spec.clone();
    let concurrent = { let ex = run_spec(&best, None, false); ex.max_threads > 1 };
    let try_spec = |s: &Value, tries: u64| -> Option<Value> {
        for k in 0..tries {
            if t.late() { return None; }
            let mut c = s.clone();
            if k > 0 { let sd = c["cfg"]["seed"].as_u64().unwrap_or(1); c["cfg"]["seed"] = json!(rng::mix(sd, k)); }
            let ex = run_spec(&c, None, false);
            if t.hits(&ex) { return Some(c); }
        }
        None
    };
    // environment
    for (k, v) in [("spurious_pm", 0), ("clock_jump_pm", 0), ("stall_pct", 0), ("hot_mod", 0), ("short_read_pm", 0), ("eintr_read_pm", 0), ("short_write_pm", 0), ("eintr_write_pm", 0), ("tty", 0), ("policy", 2)] {
        if best["cfg"][k] == json!(v) { continue; }
        let mut c = best.clone(); c["cfg"][k] = json!(v);
        if let Some(s) = try_spec(&c, 2) { best = s; }
    }
    // workload
    let mut progress = true;
    while progress && !t.late() {
        progress = false;
        let mut i = 0;
        loop {
            let mut c = Vec::new(); simpler(&best["w"], &mut c);
            let mut advanced = false;
            while i < c.len() && !t.late() {
                let mut s = best.clone(); s["w"] = c[i].clone();
                i += 1;
                if let Some(s) = try_spec(&s, if concurrent { 6 } else { 1 }) { best = s; progress = true; advanced = true; i = i.saturating_sub(1); break; }
            }
            if !advanced { break; }
        }
    }
    // decisions and faults
    let ex = run_spec(&best, None, false);
    if !t.hits(&ex) { return (best, None); }
    let mut recs = ex.phases.clone();
    let ex2 = run_spec(&best, Some(recs.clone()), false);
    if !t.hits(&ex2) { return (best, None); }
    let mut last = ex2;
    let replay = |r: &Vec<PhaseRec>| -> Option<Ex> { let e = run_spec(&best, Some(r.clone()), false); if t.hits(&e) { Some(e) } else { None } };
    for p in 0..recs.len() {
        for what in 0..2 {
            let len = |r: &Vec<PhaseRec>| if what == 0 { r[p].decisions.len() } else { r[p].faults.len() };
            let mut size = len(&recs);
            while size >= 1 && !t.late() {
                let mut i = 0;
                while i < len(&recs) && !t.late() {
                    let mut r = recs.clone();
                    let e = (i + size).min(len(&recs));
                    if what == 0 { r[p].decisions.drain(i..e); } else { r[p].faults.drain(i..e); }
                    if let Some(x) = replay(&r) { recs = r; last = x; } else { i = e; }
                }
                size /= 2;
            }
        }
    }
    // what the final replay really did
    let done = recs.clone();
    (best, Some((done, last)))
}
pub fn deadline(secs: u64) -> Instant { Instant::now() + Duration::from_secs(secs) }
