//! Library-level unweighting with simulated streams of random numbers: C10.
use crate::ex::Ex;
use crate::recorder;
use crate::rng::Rng;
use cres::event::{Event, EventBuilder};
use cres::traits::Unweight;
use cres::unweight::Unweighter;
use noisy_float::prelude::*;
use particle_id::ParticleID;
use rand::distr::{Distribution, Uniform};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{Cfg, Outcome};

/// Which random numbers are drawn
#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub struct Stream { pub seed: u64, /// per cent of draws that give the lowest, the highest value
    pub low: u64, pub high: u64 }
struct Draws { r: Rng, s: Stream }
impl rand::RngCore for Draws {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        let k = self.r.below(100);
        let x = self.r.next();
        if k < self.s.low { 0 } else if k < self.s.low + self.s.high { u64::MAX } else { x }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W { pub ev: Vec<Vec<f64>>, pub min: f64, pub s: Stream, pub threads: usize, pub install: bool,
    /// unweight the result once more
    pub twice: bool,
    /// many events of one weight: the fraction of kept events has to be |weight| / min
    pub copies: usize }

pub fn gen(r: &mut Rng, _cfg: &mut Cfg) -> W {
    let nch = if cfg!(feature = "multiweight") { if r.chance(4) { *r.pick(&[15, 16, 17, 33, 64, 103]) } else { *r.pick(&[1, 1, 1, 1, 2, 2, 3, 5, 9]) } } else { 1 };
    let scale = *r.pick(&[1., 1., 2f64.powi(-60), 1e-25, 1e13, 2f64.powi(40)]);
    let copies = if r.chance(15) { r.us(500, 3000) } else { 1 };
    let n = if copies > 1 { 1 } else { match r.below(8) { 0 => r.us(0, 2), 7 => r.us(100, 600), _ => r.us(2, 40) } };
    let kind = r.below(4);
    let (neg, zero) = (*r.pick(&[0, 10, 45]), *r.pick(&[0, 20, 60]));
    let ev: Vec<Vec<f64>> = (0..n).map(|_| {
        let m = match kind { 0 => 1., 1 => r.range(1, 8) as f64, 2 => r.f() + 1e-3, _ => 10f64.powi(r.range(0, 8) as i32 - 4) * (r.f() + 0.1) } * scale;
        let z = copies == 1 && r.chance(zero);
        let sg = if r.chance(neg) { -1. } else { 1. };
        (0..nch).map(|c| if c == 0 { if z { 0. } else { sg * m } } else { m * (r.f() * 3. - 1.) }).collect()
    }).collect();
    let ws: Vec<f64> = ev.iter().map(|e| e[0].abs()).filter(|x| *x > 0.).collect();
    let min = if r.chance(5) || ws.is_empty() { *r.pick(&[0., scale]) } else if copies > 1 { ws[0] * (1. + r.f() * 20.) } else { *r.pick(&ws) * *r.pick(&[0.3, 0.9, 1., 1.5, 3., 50.]) };
    W { ev, min, s: if copies > 1 { Stream { seed: r.next(), low: 0, high: 0 } } else { Stream { seed: r.next(), low: *r.pick(&[0, 0, 10, 50, 70]), high: *r.pick(&[0, 0, 10, 30]) } },
        threads: r.us(1, 6), install: r.chance(40), twice: copies == 1 && r.chance(20), copies }
}

#[derive(Serialize, Deserialize, Clone)]
struct Out { ids: Vec<usize>, w: Vec<Vec<recorder::F>>, same_momenta: bool }
fn go(w: &W, ev: &[Vec<f64>], ids: &[usize]) -> Out {
    let events: Vec<Event> = ids.iter().map(|i| {
        let mut b = EventBuilder::new();
        for x in &ev[*i] { b.add_weight(n64(*x)); }
        let p = 1. + *i as f64;
        b.add_outgoing(ParticleID::new(81), [n64(p), n64(p), n64(0.), n64(0.)].into());
        let mut e = b.build();
        e.id = *i;
        e
    }).collect();
    let mut u = Unweighter::new(w.min, Draws { r: Rng::new(w.s.seed), s: w.s });
    let exec = move || u.unweight(events).unwrap();
    let res = if w.install {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(w.threads).build().unwrap();
        struct Sf<T>(T);
        unsafe impl<T> Send for Sf<T> {}
        let s = Sf(exec);
        pool.install(move || { let s = s; Sf((s.0)()) }).0
    } else {
        rayon::ThreadPoolBuilder::new().num_threads(w.threads).build_global().unwrap();
        exec()
    };
    let same_momenta = res.iter().all(|e| { let m = crate::resample::momenta(e); m.len() == 1 && m[0].0 == 81 && m[0].1.len() == 1 && m[0].1[0][1].0 == 1. + e.id() as f64 });
    Out { ids: res.iter().map(|e| e.id()).collect(), w: res.iter().map(recorder::raw_weights).collect(), same_momenta }
}

pub fn run(_prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    if w.threads == 0 || w.threads > 8 || w.ev.len() > 1000 || w.copies == 0 || w.copies > 5000 || w.s.low + w.s.high > 100 { return Err("size".into()); }
    if w.copies > 1 && (w.ev.len() != 1 || w.s.low + w.s.high > 0 || w.twice) { return Err("copies".into()); }
    let nch = w.ev.first().map_or(1, |e| e.len());
    if nch == 0 || nch > 1 && !cfg!(feature = "multiweight") || w.ev.iter().any(|e| e.len() != nch || e.iter().any(|x| !x.is_finite())) { return Err("weights".into()); }
    if !(w.min >= 0.) || w.min > 0. && !w.min.is_normal() { return Err("min".into()); }
    let mut ev: Vec<Vec<f64>> = w.ev.iter().cycle().take(w.ev.len() * w.copies).cloned().collect();
    let mut ids: Vec<usize> = (0..ev.len()).collect();
    ex.trivial = ev.len() < 2;
    simrt::fs::reset();
    for pass in 0..if w.twice { 2 } else { 1 } {
        let p = ex.phase("unweight", cfg, &[], || go(&w, &ev, &ids));
        let out = match &p.outcome {
            Outcome::Returned => p.result.clone().unwrap(),
            Outcome::Harness => return Ok(()),
            o => { ex.viol("C10", "failed", format!("unweighting ends with {o:?} {:?}", p.panic)); return Ok(()) }
        };
        if !check(&w, &ev, &ids, &out, ex) { return Ok(()); }
        for (i, v) in out.ids.iter().zip(&out.w) { ev[*i] = v.iter().map(|x| x.0).collect(); }
        ids = out.ids;
        if ids.is_empty() || pass == 0 && ids.iter().any(|i| ev[*i].iter().any(|x| !x.is_finite())) { break; }
    }
    Ok(())
}

fn check(w: &W, ev: &[Vec<f64>], ids: &[usize], out: &Out, ex: &mut Ex) -> bool {
    let mut v = |class: &str, m: String| { ex.viol("C10", class, m); false };
    if !out.same_momenta { return v("momenta", "unweighting changed momenta".into()); }
    let kept = &out.ids;
    let nch = ids.first().map_or(1, |i| ev[*i].len());
    { let mut it = ids.iter(); if !kept.iter().all(|k| it.any(|i| i == k)) { return v("order", format!("kept events {:?} are not a subsequence of the events", &kept[..kept.len().min(20)])); } }
    if out.w.iter().any(|x| x.len() != nch) { return v("channels", "number of weights changed".into()); }
    if w.min == 0. {
        if kept.len() != ids.len() || kept.iter().zip(&out.w).any(|(i, x)| x.iter().zip(&ev[*i]).any(|(a, b)| a.0.to_bits() != b.to_bits())) { return v("zero_threshold", "a threshold of zero changes events".into()); }
        return true;
    }
    let set: std::collections::BTreeSet<usize> = kept.iter().copied().collect();
    for i in ids {
        let m = ev[*i][0].abs();
        if m == 0. && set.contains(i) { return v("zero_kept", format!("event {i} has no weight, but was kept")); }
        if m > w.min && !set.contains(i) { return v("large_discarded", format!("event {i} with weight {:e} above the threshold {:e} was discarded", ev[*i][0], w.min)); }
    }
    // the draws of the events below the threshold, one after another
    if ids.iter().all(|i| ev[*i][0].abs() != w.min) {
        let mut rng = Draws { r: Rng::new(w.s.seed), s: w.s };
        let d = Uniform::try_from(0.0..w.min).unwrap();
        for i in ids {
            let m = ev[*i][0].abs();
            if m > w.min { continue; }
            let u = d.sample(&mut rng);
            if u != 0. && (u - m).abs() <= 1e-12 * w.min { break; }
            if (u < m) != set.contains(i) { return v("draw", format!("event {i} with weight {:e}, threshold {:e} and draw {u:e} was {}", ev[*i][0], w.min, if u < m { "discarded" } else { "kept" })); }
        }
    }
    if w.copies > 1 {
        let (n, p) = (ids.len() as f64, (ev[ids[0]][0].abs() / w.min).min(1.));
        let s = (n * p * (1. - p)).sqrt();
        if (kept.len() as f64 - n * p).abs() > 7. * s + 1e-9 * n + 1. { return v("fraction", format!("{} of {n} events with |weight| = {p} of the threshold were kept", kept.len())); }
    }
    // one common factor
    let want = |i: usize| -> Vec<f64> { let m = ev[i][0].abs(); let k = if m < w.min { w.min / m } else { 1. }; ev[i].iter().map(|x| x * k).collect() };
    let a: f64 = ids.iter().map(|i| ev[*i][0]).sum();
    let b: f64 = kept.iter().map(|i| want(*i)[0]).sum();
    let size: f64 = ids.iter().map(|i| ev[*i][0].abs()).sum::<f64>() + kept.iter().map(|i| want(*i)[0].abs()).sum::<f64>();
    if kept.is_empty() { ex.probe("all_discarded"); return true; }
    if b.abs() <= 1e-9 * size {
        // undetermined by rounding unless both are exact
        let small_int = |x: f64| (x / w.min * 1024.).fract() == 0. && (x / w.min).abs() < 1e6;
        let exact = ids.iter().all(|i| small_int(ev[*i][0])) && kept.iter().all(|i| small_int(want(*i)[0]));
        if exact && a == 0. && b == 0. && out.w.iter().any(|x| x.iter().any(|y| !y.0.is_finite())) { return v("nonfinite", format!("weights that already have the sum of zero become {:?}", out.w[0])); }
        ex.probe("kept_weights_cancel");
        return true;
    }
    let f = a / b;
    // the factor suffers from cancellations in either sum
    let rel = 1e-11 * (1. + size / b.abs());
    let tol0 = 1e-11 * size / b.abs();
    for (i, x) in kept.iter().zip(&out.w) {
        for (c, (got, y)) in x.iter().zip(want(*i)).enumerate() {
            if !((got.0 - f * y).abs() <= (rel * f.abs() + tol0) * y.abs()) { return v("rule", format!("event {i} channel {c}: weight {:e}, keep, promote and common factor {f:e} give {:e} (before {:e})", got.0, f * y, ev[*i][c])); }
        }
    }
    let c: f64 = out.w.iter().map(|x| x[0].0).sum();
    let s2 = out.w.iter().map(|x| x[0].0.abs()).sum::<f64>();
    if !((c - a).abs() <= 1e-9 * (size + s2) ) { return v("sum", format!("sum of weights was {a:e}, is {c:e} after unweighting")); }
    true
}
