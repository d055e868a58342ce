//! Library-level resampling: C01 to C05.
use crate::ex::Ex;
use crate::recorder::{self, Rec, What, F};
use crate::rng::Rng;
use cres::event::{Event, EventBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::prelude::*;
use cres::seeds::{StrategicSelector, Strategy};
use cres::traits::{Distance, Resample};
use noisy_float::prelude::*;
use particle_id::ParticleID;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{Cfg, Outcome};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev { pub w: Vec<f64>, pub x: Vec<f64>, pub g: u32 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub ev: Vec<Ev>,
    /// 0 line, 1 euclid, 2 discrete, 3 line with groups at infinite distance, 4 built-in distance on particles
    pub dist: u8,
    pub tau: f64,
    pub naive: bool,
    pub strategy: u8,
    pub max: Option<f64>,
    pub threads: usize,
    pub install: bool,
    pub idmul: usize,
    /// ids are not in the order of the events
    #[serde(default)]
    pub perm: Option<u64>,
    /// 0 off .. 5 trace
    pub log: usize,
}
pub const PIDS: [i32; 5] = [81, 82, 83, 22, -5];

pub fn strategy(s: u8) -> Strategy { match s { 0 => Strategy::MostNegative, 1 => Strategy::LeastNegative, _ => Strategy::Next } }

/// distance between generated events, written independently of the code under test
pub fn true_dist(w: &W, a: usize, b: usize) -> f64 {
    let (p, q) = (&w.ev[a], &w.ev[b]);
    let get = |v: &Vec<f64>, i: usize| v.get(i).copied().unwrap_or(0.);
    match w.dist {
        0 => (get(&p.x, 0) - get(&q.x, 0)).abs(),
        1 => (0..3).map(|i| (get(&p.x, i) - get(&q.x, i)).powi(2)).sum::<f64>().sqrt(),
        2 => if a == b { 0. } else { 1. },
        3 => if p.g != q.g { f64::INFINITY } else { (get(&p.x, 0) - get(&q.x, 0)).abs() },
        _ => crate::refdist::distance(&particles(p), &particles(q), w.tau),
    }
}
pub fn particles(e: &Ev) -> Vec<(i32, [f64; 3])> {
    e.x.chunks(3).enumerate().filter(|(_, c)| c.len() == 3).map(|(i, c)| (PIDS[((e.g >> (3 * i)) & 7) as usize % 5], [c[0], c[1], c[2]])).collect()
}
struct UserDist { m: Vec<f64>, n: usize, idmul: usize, of: Vec<usize> }
impl Distance for UserDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 { n64(self.m[self.of[a.id() / self.idmul] * self.n + self.of[b.id() / self.idmul]]) }
}
pub fn ids(w: &W) -> Vec<usize> {
    let mut v: Vec<usize> = (0..w.ev.len()).map(|i| i * w.idmul).collect();
    if let Some(s) = w.perm { Rng::new(s).shuffle(&mut v); }
    v
}
pub fn build_events(w: &W) -> Vec<Event> {
    let ids = ids(w);
    w.ev.iter().enumerate().map(|(i, e)| {
        let mut b = EventBuilder::new();
        for x in &e.w { b.add_weight(n64(*x)); }
        if w.dist == 4 {
            for (pid, p) in particles(e) {
                let en = (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
                b.add_outgoing(ParticleID::new(pid), [n64(en), n64(p[0]), n64(p[1]), n64(p[2])].into());
            }
        }
        let mut ev = b.build();
        ev.id = ids[i];
        ev
    }).collect()
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let s = format!("{}", r.args()); std::hint::black_box(s); }
    fn flush(&self) {}
}
pub fn set_log(level: usize) {
    let _ = log::set_logger(&Sink);
    log::set_max_level([log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace][level.min(5)]);
}

#[derive(Serialize, Deserialize)]
struct Out { w: Vec<Vec<F>>, ids: Vec<usize>, mom: Vec<Vec<(i32, Vec<[F; 4]>)>>, mom_in: Vec<Vec<(i32, Vec<[F; 4]>)>>, log: Vec<Rec> }
pub fn momenta(e: &Event) -> Vec<(i32, Vec<[F; 4]>)> {
    e.outgoing().iter().map(|(t, ps)| (t.id(), ps.iter().map(|p| [F(p[0].into()), F(p[1].into()), F(p[2].into()), F(p[3].into())]).collect())).collect()
}

fn run_real(w: &W) -> Out {
    set_log(w.log);
    let events = build_events(w);
    let ids: Vec<usize> = events.iter().map(|e| e.id()).collect();
    let mom_in = events.iter().map(momenta).collect();
    recorder::reset(&ids, w.ev.len() <= 130);
    let n = w.ev.len();
    fn go<D: Distance + Send + Sync>(w: &W, d: D, events: Vec<Event>) -> Vec<Event> {
        let b = ResamplerBuilder::default().seeds(StrategicSelector::new(strategy(w.strategy))).distance(d).observer(recorder::Obs).max_cell_size(w.max);
        let exec = |events: Vec<Event>| if w.naive {
            b.neighbour_search::<recorder::Rc<NaiveNeighbourSearch>>().build().resample(events).unwrap()
        } else {
            b.neighbour_search::<recorder::Rc<TreeSearch>>().build().resample(events).unwrap()
        };
        if w.install {
            // driven from inside a pool, as the C interface or a host program may do
            let pool = rayon::ThreadPoolBuilder::new().num_threads(w.threads).build().unwrap();
            struct Sf<T>(T);
            unsafe impl<T> Send for Sf<T> {}
            let s = Sf((exec, events));
            pool.install(move || { let s = s; (s.0.0)(s.0.1) })
        } else {
            rayon::ThreadPoolBuilder::new().num_threads(w.threads).build_global().unwrap();
            exec(events)
        }
    }
    let res = if w.dist == 4 {
        go(w, cres::distance::EuclWithScaledPt::new(n64(w.tau)), events)
    } else {
        let mut m = vec![0.; n * n];
        for a in 0..n { for b in 0..n { m[a * n + b] = true_dist(w, a, b); } }
        let mut of = vec![0; n];
        for (i, id) in ids.iter().enumerate() { of[id / w.idmul] = i; }
        go(w, UserDist { m, n, idmul: w.idmul, of }, events)
    };
    Out {
        w: res.iter().map(recorder::raw_weights).collect(),
        ids: res.iter().map(|e| e.id()).collect(),
        mom: res.iter().map(momenta).collect(), mom_in,
        log: recorder::take(),
    }
}

#[derive(Clone, Debug)]
/// `free`: position of the last thing the building thread did before
struct CellInfo { seed: usize, uid: u64, tid: u32, start: u64, free: u64, yields: Vec<(usize, f64, u64)>, built: u64, asked: bool,
    obs: Option<ObsInfo> }
#[derive(Clone, Debug)]
struct ObsInfo { pos: usize, seq: u64, n: usize, radius: f64, wsum: f64, members: Vec<usize>, snap: Vec<Vec<F>> }

fn exact(v: &[f64]) -> bool { v.iter().all(|x| (x * 1048576.).fract() == 0. && x.abs() < 1e6) }

pub fn gen(prop: &str, r: &mut Rng, cfg: &mut Cfg) -> W {
    let nch = if cfg!(feature = "multiweight") { if r.chance(4) { *r.pick(&[15, 16, 17, 33, 64, 103]) } else { *r.pick(&[1, 1, 1, 1, 2, 2, 3, 5, 9]) } } else { 1 };
    let big = r.below(1000) < if prop == "C03" || prop == "C05" { 12 } else { 5 };
    // a few cells with very many members
    let wide = !big && r.below(1000) < 6;
    let n = if big { r.us(1001, 1300) } else if wide { r.us(200, 640) } else { match r.below(10) { 0 => r.us(0, 3), 1..=6 => r.us(4, if prop == "C05" { 28 } else { 16 }), 7 | 8 => r.us(17, 50), _ => r.us(50, 120) } };
    let dist = if big || wide { *r.pick(&[0, 1]) } else { *r.pick(&[0, 0, 1, 1, 2, 3, 3, 4]) };
    let wk = r.below(6);
    let neg = *r.pick(&[10, 30, 45, 60]);
    let wscale = if r.chance(70) { 1. } else { *r.pick(&[2f64.powi(-60), 2f64.powi(40), 1e-25, 1e-13, 1e10]) };
    let grid = r.chance(50);
    let span = *r.pick(&[3u64, 10, 100]);
    let mut ev = Vec::new();
    for _ in 0..n {
        let mut w = Vec::new();
        for c in 0..nch {
            let sign = if r.chance(if big { 4 } else if wide { 2 } else { neg }) { -1. } else { 1. };
            let m = match wk {
                0 => 1., 1 => r.range(0, 4) as f64, 2 => r.range(1, 64) as f64 / 16., 5 => 1. + r.range(0, 200) as f64 * 0.5f64.powi(40), 3 => r.f() + 1e-3,
                _ => 10f64.powi(r.range(0, 12) as i32 - 6) * (r.f() + 0.1),
            };
            let m = m * wscale;
            let m = if wide && sign < 0. && c == 0 && r.chance(60) { m * r.range(20, 500) as f64 } else { m };
            w.push(if m == 0. { 0. } else if c == 0 { sign * m } else { sign * m * (r.f() * 4. - 2.) });
        }
        let (x, g) = if dist == 4 {
            let k = r.us(0, 4);
            ((0..3 * k).map(|_| if grid { r.range(0, span) as f64 } else { r.f() * 100. - 50. }).collect(), r.below(8 * 8 * 8 * 8) as u32)
        } else {
            ((0..if dist == 1 { 3 } else { 1 }).map(|_| if grid && !big { r.range(0, span) as f64 } else { r.f() * 100. }).collect(), r.below(3) as u32)
        };
        ev.push(Ev { w, x, g });
    }
    let max = match r.below(6) { _ if wide && r.chance(80) => None, 0 => Some(0.), 1 => Some(r.range(1, span) as f64), 2 => Some(r.f() * 60.), 3 => Some(1.), _ => None };
    let one = match prop { "C04" => true, "C02" => false, _ => r.chance(20) };
    let threads = if one { 1 } else if prop == "C05" && r.chance(50) { r.us(4, if big { 4 } else { 8 }) } else { r.us(2, if big { 4 } else { 7 }) };
    if (prop == "C02" || prop == "C05") && r.chance(60) { cfg.policy = 0; cfg.gap = *r.pick(&[3, 8, 20, 60, 200]); }
    // bound the number of context switches of one run
    let log = *r.pick(&[0, 0, 0, 3, 3, 4, 5]);
    let least = (n * n / 150 * if log > 4 { 8 } else { 1 }) as u32;
    if cfg.gap < least { cfg.gap = least; }
    if n > 130 { cfg.hot_pct = cfg.hot_pct.min(5); }
    W { ev, dist, tau: if r.chance(50) { 0. } else { r.f() * 10. }, naive: !big && r.chance(if wide { 25 } else { 35 }), strategy: r.below(3) as u8, max: if big && max.is_none() { Some(10.) } else { max },
        threads, install: r.chance(40), idmul: *r.pick(&[1, 1, 3]), perm: if r.chance(20) { Some(r.next()) } else { None }, log }
}

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    if w.threads == 0 || w.threads > 12 || w.idmul == 0 { return Err("threads".into()); }
    let nch = w.ev.first().map_or(1, |e| e.w.len());
    if w.ev.iter().any(|e| e.w.len() != nch || nch == 0 || e.w.iter().any(|x| !x.is_finite())) { return Err("weights".into()); }
    if !cfg!(feature = "multiweight") && nch > 1 { return Err("channels".into()); }
    if w.max.is_some_and(|m| !m.is_finite() || m < 0.) { return Err("max".into()); }
    let mut cfg = *cfg;
    cfg.step_limit = 400_000_000;
    if w.log > 3 { cfg.step_limit *= 4; }
    simrt::fs::reset();
    let p = ex.phase("resample", &cfg, &[], || run_real(&w));
    let Some(out) = check_outcome("resampling", &p.outcome, &p.note, &p.panic, &p.result, ex) else { return Ok(()) };
    let cells = analyse(&w, out, ex);
    ex.trivial = cells < 2;
    if w.threads == 1 {
        // the result must not depend on the schedule
        if prop == "C04" {
            let mut c2 = cfg; c2.policy = if cfg.policy == 2 { 0 } else { 2 }; c2.gap = 50; c2.spurious_pm = 0; c2.hot_mod = 0; c2.stall_pct = 0;
            let q = ex.phase("again", &c2, &[], || run_real(&w));
            if let Some(o2) = check_outcome("resampling", &q.outcome, &q.note, &q.panic, &q.result, ex) {
                if o2.w != out.w { ex.viol("C04", "schedule_dependent", "one worker, same input, different result under another schedule".into()); }
            }
            let distinct = { let mut ok = true; for a in 0..w.ev.len().min(60) { let mut d: Vec<f64> = (0..w.ev.len()).filter(|b| *b != a).map(|b| true_dist(&w, a, b)).collect(); d.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if d.windows(2).any(|p| p[0].is_finite() && p[1] - p[0] < 1e-9) { ok = false; break; } } ok };
            if distinct && w.ev.len() <= 60 {
                ex.probe("tree_vs_naive_compared");
                let mut w2 = w.clone(); w2.naive = !w.naive;
                let q = ex.phase("other_search", &c2, &[], || run_real(&w2));
                if let Some(o2) = check_outcome("resampling", &q.outcome, &q.note, &q.panic, &q.result, ex) {
                    let scale: f64 = w.ev.iter().map(|e| e.w[0].abs()).sum();
                    let same = o2.w.iter().zip(&out.w).all(|(a, b)| a.iter().zip(b).all(|(x, y)| (x.0 - y.0).abs() <= 1e-9 * scale || x.0.to_bits() == y.0.to_bits() || !exact_all(&w)));
                    if !same { ex.viol("C04", "search_dependent", "tree and naive search give different results although all distances differ".into()); }
                }
            }
        }
    }
    Ok(())
}
fn exact_all(w: &W) -> bool {
    // away from rounding ambiguity only if no partial sum comes close to zero; be conservative
    w.ev.iter().all(|e| e.w[0].abs() > 1e-6)
}

pub fn check_outcome<'a, R>(what: &str, o: &Outcome, note: &str, panic: &Option<String>, r: &'a Option<R>, ex: &mut Ex) -> Option<&'a R> {
    match o {
        Outcome::Returned => return r.as_ref(),
        Outcome::Deadlock => ex.viol("C05", "deadlock", format!("{what}: {note}")),
        Outcome::StepLimit | Outcome::CpuLimit => ex.viol("C05", "no_progress", format!("{what} does not terminate: {note}")),
        Outcome::Panic => { let m = panic.clone().unwrap_or_default(); ex.viol("C01", "panic", format!("{what} panicked: {m}")) }
        Outcome::Abort | Outcome::Signal(_) => ex.viol("C01", "abort", format!("{what}: {o:?}")),
        Outcome::Harness => {}
        o => ex.viol("C01", "exit", format!("{what}: unexpected end {o:?}")),
    }
    None
}

fn analyse(w: &W, out: &Out, ex: &mut Ex) -> usize {
    let n = w.ev.len();
    let inp: Vec<Vec<f64>> = w.ev.iter().map(|e| e.w.clone()).collect();
    let nch = inp.first().map_or(1, |v| v.len());
    // --- C01: identity, order, sums
    let want = ids(w);
    if out.ids != want { ex.viol("C01", "order", format!("event ids after resampling {:?}..., expected {:?}...", head(&out.ids), head(&want))); return 0; }
    if out.mom != out.mom_in { ex.viol("C01", "momenta", "momenta changed".into()); }
    if out.w.iter().any(|v| v.len() != nch) { ex.viol("C01", "channels", "number of weights changed".into()); return 0; }
    let fin: Vec<Vec<f64>> = out.w.iter().map(|v| v.iter().map(|x| x.0).collect()).collect();
    let scale: Vec<f64> = (0..nch).map(|c| inp.iter().map(|v| v[c].abs()).sum::<f64>()).collect();
    for c in 0..nch {
        if fin.iter().any(|v| !v[c].is_finite()) { ex.viol("C01", "nonfinite", format!("channel {c} has a weight that is not finite")); return 0; }
        let a: f64 = inp.iter().map(|v| v[c]).sum(); let b: f64 = fin.iter().map(|v| v[c]).sum();
        if (a - b).abs() > 1e-9 * scale[c] { ex.viol("C01", "sum", format!("sum of weights in channel {c} was {a:e}, is {b:e}")); }
    }
    // --- assemble cells
    let mut cells: Vec<CellInfo> = Vec::new();
    let mut obs: Vec<(u64, u32, ObsInfo)> = Vec::new();
    let mut finishes = 0;
    let mut last_of: std::collections::HashMap<u32, u64> = Default::default();
    let mut by_uid: std::collections::HashMap<u64, usize> = Default::default();
    for (pos, r) in out.log.iter().enumerate() {
        match &r.what {
            What::Start { uid, seed } => { by_uid.insert(*uid, cells.len()); cells.push(CellInfo { seed: *seed, uid: *uid, tid: r.tid, start: pos as u64, free: last_of.get(&r.tid).copied().unwrap_or(0), yields: vec![], built: r.seq, asked: false, obs: None }) }
            What::Next { uid, idx, dist } => if let Some(c) = by_uid.get(uid).map(|k| &mut cells[*k]) { { c.asked = true; c.yields.push((*idx, dist.0, pos as u64)) } },
            What::End { uid } => if let Some(c) = by_uid.get(uid).map(|k| &mut cells[*k]) { c.asked = true },
            What::Drop { .. } => {}
            What::Obs { n, radius, wsum, members, snap } => {
                let o = ObsInfo { pos, seq: pos as u64, n: *n, radius: radius.0, wsum: wsum.0, members: members.clone(), snap: snap.clone() };
                // which constructed cell is this?
                let ms: BTreeSet<usize> = members.iter().copied().collect();
                let fits = |c: &CellInfo| c.obs.is_none() && c.yields.len() + 1 >= ms.len() && {
                    let mut s: BTreeSet<usize> = c.yields.iter().take(ms.len().saturating_sub(1)).map(|y| y.0).collect(); s.insert(c.seed); s == ms };
                let k = cells.iter().rposition(|c| c.tid == r.tid && fits(c)).or_else(|| cells.iter().rposition(fits));
                match k {
                    Some(k) => cells[k].obs = Some(o),
                    None => {
                        let k = cells.iter().rposition(|c| c.tid == r.tid && c.obs.is_none());
                        match k {
                            None => ex.viol("C02", "observed_unknown_cell", "observer was shown a cell that was not constructed, or one cell twice".into()),
                            Some(k) => {
                                let c = &cells[k];
                                ex.viol("C03", "members_not_nearest", format!("cell around {} reports members {:?}, neighbour search returned {:?}", c.seed, members, c.yields.iter().map(|y| y.0).collect::<Vec<_>>()));
                                cells[k].obs = Some(o);
                            }
                        }
                    }
                }
                obs.push((r.seq, r.tid, ObsInfo { pos, seq: pos as u64, n: *n, radius: radius.0, wsum: wsum.0, members: vec![], snap: vec![] }));
            }
            What::Finish => finishes += 1,
        }
        last_of.insert(r.tid, pos as u64);
    }
    if finishes != 1 { ex.viol("C02", "observer_finish", format!("observer finished {finishes} times")); }
    // a search that was set up but never used is no cell
    cells.retain(|c| c.obs.is_some() || c.asked);
    let unobs = cells.iter().filter(|c| c.obs.is_none()).count();
    if unobs > 0 { ex.viol("C02", "unobserved_cell", format!("{unobs} of {} constructed cells were never shown to the observer", cells.len())); return cells.len(); }
    for c in cells.iter_mut() {
        let k = c.obs.as_ref().unwrap().members.len().saturating_sub(1).min(c.yields.len());
        // positions in the log order everything: only one thread runs at a time
        c.built = if k == 0 { c.start } else { c.yields[k - 1].2 };
    }
    cells.sort_by_key(|c| c.obs.as_ref().unwrap().seq);
    // --- C01: untouched events
    let mut touched = vec![false; n];
    for c in &cells { for &m in &c.obs.as_ref().unwrap().members { if m < n { touched[m] = true; } } }
    for i in 0..n { if !touched[i] && out.w[i].iter().zip(&inp[i]).any(|(a, b)| a.0.to_bits() != b.to_bits()) {
        ex.viol("C01", "untouched_changed", format!("event {i} is in no cell but its weight changed from {:?} to {:?}", inp[i], fin[i])); break; } }
    // --- C03: geometry
    let maxd = w.max.unwrap_or(f64::MAX);
    for c in &cells {
        let o = c.obs.as_ref().unwrap();
        let ms: BTreeSet<usize> = o.members.iter().copied().collect();
        if ms.len() != o.members.len() || o.n != ms.len() { ex.viol("C03", "duplicate_member", format!("cell around {}: members {:?}, nmembers() {}", c.seed, o.members, o.n)); continue; }
        if ms.iter().any(|m| *m >= n) || !ms.contains(&c.seed) { ex.viol("C03", "seed_missing", format!("cell around {} has members {:?}", c.seed, o.members)); continue; }
        if inp[c.seed][0] >= 0. { ex.viol("C04", "seed_not_negative", format!("cell around event {} which never was negative", c.seed)); }
        let far = ms.iter().filter(|m| **m != c.seed).map(|m| true_dist(w, c.seed, *m)).fold(0., f64::max);
        let tol = 1e-9 * (1. + if far.is_finite() { far } else { 0. });
        if far > maxd + tol { ex.viol("C03", "too_far", format!("cell around {} has a member at distance {far}, limit {maxd}", c.seed)); }
        if (o.radius - far).abs() > tol { ex.viol("C03", "radius", format!("cell around {}: radius {} but farthest member at {far}", c.seed, o.radius)); }
        if let Some(m) = (0..n).find(|m| !ms.contains(m) && true_dist(w, c.seed, *m) < far - tol) {
            ex.viol("C03", "gap", format!("cell around {} skips event {m} at distance {} while its farthest member is at {far}", c.seed, true_dist(w, c.seed, m)));
        }
        for y in &c.yields { let d = true_dist(w, c.seed, y.0); if (d - y.1).abs() > 1e-9 * (1. + d.abs()) { ex.viol("C03", "wrong_distance", format!("neighbour {} of {} reported at {}, is at {d}", y.0, c.seed, y.1)); break; } }
    }
    // --- C02: one at a time, in some order
    let sol = linearise(&cells, &inp, &fin, &scale, true);
    match sol {
        Lin::Ok(_) => {}
        Lin::Capped => { ex.probe("linearisation_capped"); }
        Lin::No(k) => match linearise(&cells, &inp, &fin, &scale, false) {
            Lin::Ok(_) => { ex.probe("intermediate_state_unexplained"); }
            _ => { ex.viol("C02", "not_serialisable", format!("no order of the {} cells explains the weights after cell {} (around event {})", cells.len(), k, cells.get(k).map_or(0, |c| c.seed))); }
        },
    }
    // --- C03: growth stops in time
    for (i, c) in cells.iter().enumerate() {
        let o = c.obs.as_ref().unwrap();
        if o.members.is_empty() { continue; }
        let ms: BTreeSet<usize> = o.members.iter().copied().collect();
        let left = (0..n).any(|m| !ms.contains(&m) && { let d = true_dist(w, c.seed, m); d <= maxd - 1e-9 * maxd.abs().min(1.) });
        let wtol = 1e-12 * scale[0];
        let ex_w = exact(&inp.iter().map(|v| v[0]).collect::<Vec<_>>()) && i == 0;
        let amb = |x: f64| !ex_w && x.abs() <= wtol;
        if o.wsum < 0. && left && !amb(o.wsum) {
            ex.viol("C03", "stopped_early", format!("cell around {} stopped at weight {:e} although another event is within reach", c.seed, o.wsum));
        }
        // values the last member can have had when it was added
        if o.members.len() > 1 && c.yields.len() >= o.members.len() - 1 {
            let last = c.yields[o.members.len() - 2].0;
            let mut vals: Vec<f64> = vec![];
            let from = c.yields[o.members.len() - 2].2 as usize;
            // snapshot before, all snapshots up to the one after
            let mut prev = inp[last][0]; let mut locked = false;
            for (j, d) in cells.iter().enumerate() {
                let q = d.obs.as_ref().unwrap();
                if q.snap.len() != n { locked = true; continue; }
                let v = q.snap[last].first().map(|x| x.0);
                if q.pos < from { if let Some(v) = v { prev = v; locked = false } else { locked = true } }
                else if let Some(v) = v { vals.push(v); if j >= i && q.pos > o.pos { break; } } else { locked = true }
            }
            vals.push(prev);
            // values between snapshots: only if cells overlapped in time can there be more than one step
            let conc = cells.iter().any(|d| d.uid != c.uid && d.obs.as_ref().unwrap().members.contains(&last) && d.built < o.seq && d.obs.as_ref().unwrap().seq > from as u64);
            if !locked && !conc {
                ex.probe("growth_stop_checked");
                if vals.iter().all(|v| o.wsum - v > 1e-9 * scale[0]) {
                    ex.viol("C03", "grew_too_far", format!("cell around {} had weight {:e} already before event {last} was added", c.seed, o.wsum - prev));
                }
            }
        }
        // with nobody else around, the reported weight is the sum of the members' weights
        let alone = cells.iter().all(|d| d.uid == c.uid || d.obs.as_ref().unwrap().seq < c.free || d.built > o.seq
            || d.obs.as_ref().unwrap().members.iter().all(|m| !ms.contains(m)));
        if alone {
            let state = cells[..i].iter().rev().map(|d| d.obs.as_ref().unwrap()).find(|o| o.seq <= c.free);
            let val = |m: usize| -> Option<f64> { match state { None => Some(inp[m][0]), Some(o) if o.snap.len() == n => o.snap[m].first().map(|x| x.0), _ => None } };
            if let Some(v) = ms.iter().map(|m| val(*m)).collect::<Option<Vec<f64>>>() {
                ex.probe("undisturbed_cell");
                let s: f64 = v.iter().sum();
                if (s - o.wsum).abs() > 1e-9 * scale[0] { ex.viol("C03", "weight_sum", format!("cell around {} reports weight {:e}, members sum up to {s:e}", c.seed, o.wsum)); }
                let mut part = val(c.seed).unwrap();
                for (k, y) in c.yields.iter().take(o.members.len() - 1).enumerate() {
                    if part >= 0. && !amb(part) && part > wtol || (part == 0. && ex_w) { ex.viol("C03", "grew_too_far", format!("cell around {} was not closed after {} members at weight {part:e}", c.seed, k + 1)); break; }
                    part += val(y.0).unwrap();
                }
            }
        }
    }
    // --- C04: the sequential algorithm
    if w.threads == 1 { sequential(w, &cells, &inp, &fin, &scale, ex); }
    cells.len()
}

fn sequential(w: &W, cells: &[CellInfo], inp: &[Vec<f64>], fin: &[Vec<f64>], scale: &[f64], ex: &mut Ex) {
    let n = inp.len();
    let key = |i: usize| -> f64 { match w.strategy { 0 => inp[i][0], 1 => -inp[i][0], _ => i as f64 } };
    let seeds: Vec<usize> = cells.iter().map(|c| c.seed).collect();
    for p in seeds.windows(2) { if key(p[0]) > key(p[1]) { ex.viol("C04", "seed_order", format!("one worker visited seed {} before {}, against the strategy", p[0], p[1])); return; } }
    let set: BTreeSet<usize> = seeds.iter().copied().collect();
    if set.len() != seeds.len() { ex.viol("C04", "seed_twice", "a seed was used twice".into()); return; }
    if cells.iter().any(|c| c.obs.as_ref().unwrap().snap.len() != n) { return; }
    // exact weights in memory between the cells
    let state = |k: usize, e: usize| -> f64 { if k == 0 { inp[e][0] } else { cells[k - 1].obs.as_ref().unwrap().snap[e].first().map_or(f64::NAN, |x| x.0) } };
    for (k, c) in cells.iter().enumerate() {
        let v = state(k, c.seed);
        if v >= 0. { ex.viol("C04", "nonneg_seed_not_skipped", format!("seed {} had weight {v:e} when its cell was built", c.seed)); return; }
    }
    for e in 0..n {
        if inp[e][0] < 0. && !set.contains(&e) {
            // cells before (strictly) and up to and including its tie group
            let lo = cells.iter().filter(|c| key(c.seed) < key(e)).count();
            let hi = cells.iter().filter(|c| key(c.seed) <= key(e)).count();
            if !(lo..=hi).any(|k| state(k, e) >= 0.) { ex.viol("C04", "negative_seed_skipped", format!("event {e} with weight {:e} got no cell", state(lo, e))); return; }
        }
    }
    // averages, one after another
    let mut st: Vec<Vec<f64>> = inp.to_vec();
    for (k, c) in cells.iter().enumerate() {
        apply(&mut st, &c.obs.as_ref().unwrap().members);
        let sn = &c.obs.as_ref().unwrap().snap;
        for e in 0..n { for ch in 0..scale.len() {
            if sn[e].get(ch).is_none_or(|x| (x.0 - st[e][ch]).abs() > 1e-9 * scale[ch]) {
                ex.viol("C04", "not_the_mean", format!("after cell {k} event {e} has weights {:?}, expected {:?}", sn[e], st[e])); return; } } }
    }
    for e in 0..n { for ch in 0..scale.len() { if (fin[e][ch] - st[e][ch]).abs() > 1e-9 * scale[ch] { ex.viol("C04", "final_weights", format!("event {e}: {:?}, expected {:?}", fin[e], st[e])); return; } } }
    let total: f64 = inp.iter().map(|v| v[0]).sum();
    let finite = w.dist != 3 || w.ev.iter().all(|e| e.g == w.ev[0].g);
    if w.max.is_none() && total >= 0. && finite {
        ex.probe("no_negative_left_checked");
        if let Some(e) = (0..n).find(|e| fin[*e][0] < -1e-9 * scale[0]) { ex.viol("C04", "negative_left", format!("event {e} still has weight {:e} although the total is {total:e} and cells are unlimited", fin[e][0])); }
    }
}

fn apply(st: &mut [Vec<f64>], members: &[usize]) {
    if members.is_empty() { return; }
    let nch = st[members[0]].len();
    for c in 0..nch {
        let s: f64 = members.iter().map(|m| st[*m][c]).sum::<f64>() / members.len() as f64;
        for m in members { st[*m][c] = s; }
    }
}
enum Lin { Ok(Vec<usize>), No(usize), Capped }
struct Dfs<'a> { cells: &'a [CellInfo], fin: &'a [Vec<f64>], tol: Vec<f64>, hints: bool, nodes: u64, deepest: usize, order: Vec<usize>, used: Vec<bool>, disjoint: Vec<Vec<bool>> }
fn linearise(cells: &[CellInfo], inp: &[Vec<f64>], fin: &[Vec<f64>], scale: &[f64], hints: bool) -> Lin {
    let k = cells.len();
    let disjoint = if k <= 400 {
        let sets: Vec<BTreeSet<usize>> = cells.iter().map(|c| c.obs.as_ref().unwrap().members.iter().copied().collect()).collect();
        (0..k).map(|a| (0..k).map(|b| sets[a].is_disjoint(&sets[b])).collect()).collect()
    } else { vec![vec![false; k]; k] };
    let mut d = Dfs { cells, fin, tol: scale.iter().map(|s| 1e-9 * s).collect(), hints, nodes: 0, deepest: 0, order: vec![], used: vec![false; k], disjoint };
    let mut st = inp.to_vec();
    if d.step(0, &mut st, usize::MAX) { return Lin::Ok(d.order); }
    if d.nodes > CAP { Lin::Capped } else { Lin::No(d.deepest) }
}
const CAP: u64 = 60_000;
impl Dfs<'_> {
    fn matches(&self, st: &[Vec<f64>], k: usize) -> bool {
        if !self.hints { return true; }
        let snap = &self.cells[k].obs.as_ref().unwrap().snap;
        if snap.len() != st.len() { return true; }
        snap.iter().zip(st).all(|(a, b)| a.is_empty() || a.iter().zip(b).zip(&self.tol).all(|((x, y), t)| (x.0 - y).abs() <= *t))
    }
    fn step(&mut self, k: usize, st: &mut Vec<Vec<f64>>, prev: usize) -> bool {
        self.nodes += 1;
        if self.nodes > CAP { return false; }
        self.deepest = self.deepest.max(k);
        if k == self.cells.len() {
            return st.iter().zip(self.fin).all(|(a, b)| a.iter().zip(b).zip(&self.tol).all(|((x, y), t)| (x - y).abs() <= *t));
        }
        if self.used[k] && self.matches(st, k) && self.step(k + 1, st, usize::MAX) { return true; }
        let now = self.cells[k].obs.as_ref().unwrap().seq;
        // k itself first, then everything built by now and not yet averaged
        let mut cand: Vec<usize> = Vec::new();
        if !self.used[k] { cand.push(k); }
        for j in k + 1..self.cells.len() { if !self.used[j] && self.cells[j].built < now { cand.push(j); } }
        for j in cand {
            if prev != usize::MAX && j < prev && self.disjoint[prev][j] { continue; } // same as the other order
            if self.hints && j != k && self.disjoint[j][k] && false { continue; }
            let members = self.cells[j].obs.as_ref().unwrap().members.clone();
            let save: Vec<Vec<f64>> = members.iter().map(|m| st[*m].clone()).collect();
            apply(st, &members);
            self.used[j] = true; self.order.push(j);
            if self.step(k, st, j) { return true; }
            self.used[j] = false; self.order.pop();
            for (m, s) in members.iter().zip(save) { st[*m] = s; }
        }
        false
    }
}
fn head<T: Clone>(v: &[T]) -> Vec<T> { v.iter().take(8).cloned().collect() }
