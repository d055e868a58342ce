//! Cell statistics: C16.
use crate::ex::Ex;
use crate::resample::strategy;
use crate::rng::Rng;
use cres::cell_collector::CellCollector;
use cres::event::{Event, EventBuilder};
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::DefaultResamplerBuilder;
use cres::traits::Resample;
use noisy_float::prelude::*;
use particle_id::ParticleID;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{Cfg, Outcome};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// one event with negative weight (in eighths) and its neighbours (position, weight)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Group { pub neg: i32, pub pos: Vec<(i32, i32)> }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    /// one set of groups per resampling
    pub sets: Vec<Vec<Group>>,
    pub max: Option<u32>,
    pub naive: bool,
    pub strategy: u8,
    pub threads: usize,
    /// a new resampler for every resampling
    pub renew: bool,
    pub log: usize,
    pub idmul: usize,
}
const SEP: i64 = 100_000;

pub fn gen(r: &mut Rng, cfg: &mut Cfg) -> W {
    let max = if r.chance(70) { Some(*r.pick(&[0, 3, 40, 400, 4000])) } else { None };
    let grid = *r.pick(&[3, 20, 300, 5000]);
    let wide = r.chance(50);
    let mut sets = vec![];
    for _ in 0..match r.below(6) { 0 | 1 => 2, 2 => 3, _ => 1 } {
        let n = match r.below(8) { 0 => r.us(0, 2), 1 => r.us(9, 12), 2 => r.us(40, 70), _ => r.us(3, 35) };
        sets.push((0..n).map(|_| {
            let k = match r.below(4) { 0 => r.us(0, 1), 1 => r.us(0, 9), _ => r.us(0, 4) };
            let mut pos: Vec<(i32, i32)> = (0..k).map(|_| (r.range(1, grid) as i32, r.range(0, if wide { 200 } else { 9 }) as i32)).collect();
            // neighbours at the same distance are interchangeable
            pos.sort(); pos.dedup_by_key(|p| p.0);
            let neg = -(r.range(1, if wide { 300 } else { 12 }) as i32);
            if max.is_none() {
                let have: i32 = pos.iter().map(|p| p.1).sum();
                if have < -neg { pos.push((grid as i32 + r.range(1, grid) as i32, -neg - have + r.range(0, 5) as i32)); }
            }
            Group { neg, pos }
        }).collect());
    }
    if cfg.gap < 10 { cfg.gap *= 10; }
    W { sets, max, naive: r.chance(25), strategy: r.us(0, 2) as u8, threads: r.us(1, 8), renew: r.chance(50), log: *r.pick(&[0, 2, 3, 3, 4]), idmul: *r.pick(&[1, 1, 7]) }
}

fn event(id: usize, x: i64, w: i32) -> Event {
    let mut b = EventBuilder::new();
    b.add_weight(n64(w as f64 / 8.));
    b.add_outgoing(ParticleID::new(81), [n64(x as f64), n64(x as f64), n64(0.), n64(0.)].into());
    let mut e = b.build();
    e.id = id;
    e
}
fn events(set: &[Group], next: &mut usize, idmul: usize) -> Vec<Event> {
    let mut v = vec![];
    for (g, gr) in set.iter().enumerate() {
        let x = (g as i64 + 1) * SEP;
        for (dx, w) in std::iter::once((0, gr.neg)).chain(gr.pos.iter().copied()) { v.push(event(*next * idmul, x + dx as i64, w)); *next += 1; }
    }
    v
}

#[derive(Clone, Debug)]
struct Cell { ids: Vec<usize>, r: f64, w: f64 }
/// the cell around each negative event
fn truth(set: &[Group], next: &mut usize, max: f64, idmul: usize) -> Vec<Cell> {
    set.iter().map(|g| {
        let first = *next;
        *next += 1 + g.pos.len();
        let mut p: Vec<(i32, i32, usize)> = g.pos.iter().enumerate().map(|(i, p)| (p.0, p.1, first + 1 + i)).collect();
        p.sort();
        let mut c = Cell { ids: vec![first * idmul], r: 0., w: g.neg as f64 / 8. };
        for (dx, w, id) in p {
            if c.w >= 0. || dx as f64 > max { break; }
            c.ids.push(id * idmul); c.r = dx as f64; c.w += w as f64 / 8.;
        }
        c.ids.sort();
        c
    }).collect()
}

static mut LINES: Vec<String> = vec![];
static mut CAPTURE: bool = false;
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    #[allow(static_mut_refs)]
    fn log(&self, r: &log::Record) { let s = format!("{}", r.args()); let _f = simrt::Freeze::new(); unsafe { if CAPTURE { LINES.push(s) } } }
    fn flush(&self) {}
}

#[derive(Serialize, Deserialize, Default)]
struct Step { cells: Vec<(usize, Vec<usize>)>, lines: Vec<String> }
#[allow(static_mut_refs)]
fn go(w: &W) -> Vec<Step> {
    let _ = log::set_logger(&Sink);
    let lvl = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug][w.log.min(4)];
    log::set_max_level(lvl);
    rayon::ThreadPoolBuilder::new().num_threads(w.threads).build_global().unwrap();
    let c = Rc::new(RefCell::new(CellCollector::new()));
    let mut out = vec![];
    let mut next = 0;
    type Fun = Box<dyn FnMut(Vec<Event>) -> bool>;
    fn steps(w: &W, c: &Rc<RefCell<CellCollector>>, mk: &dyn Fn() -> Fun, next: &mut usize, out: &mut Vec<Step>) {
        let mut keep: Option<Fun> = None;
        for set in &w.sets {
            let ev = events(set, next, w.idmul);
            if keep.is_none() || w.renew { keep = Some(mk()); }
            if !keep.as_mut().unwrap()(ev) { panic!("resampling failed"); }
            let mut by: BTreeMap<usize, Vec<usize>> = Default::default();
            for (ev, cells) in c.borrow().event_cells() { for n in cells { by.entry(n).or_default().push(ev); } }
            let cells = by.into_iter().map(|(n, mut v)| { v.sort(); v.dedup(); (n, v) }).collect();
            let before = log::max_level();
            log::set_max_level(log::LevelFilter::Info);
            unsafe { CAPTURE = true; }
            c.borrow().dump_info();
            unsafe { CAPTURE = false; }
            log::set_max_level(before);
            out.push(Step { cells, lines: unsafe { std::mem::take(&mut LINES) } });
        }
    }
    let max = w.max.map(|m| m as f64);
    let b = || DefaultResamplerBuilder::default().ptweight(0.).strategy(strategy(w.strategy)).max_cell_size(max).cell_collector(Some(c.clone()));
    let mk = || -> Fun {
        if w.naive { let mut r = b().neighbour_search::<NaiveNeighbourSearch>().build(); Box::new(move |e| r.resample(e).is_ok()) }
        else { let mut r = b().neighbour_search::<TreeSearch>().build(); Box::new(move |e| r.resample(e).is_ok()) }
    };
    steps(w, &c, &mk, &mut next, &mut out);
    out
}

/// "Cell 3 with 4 events[ and radius 5]"
fn parse(l: &str) -> Option<(usize, usize, Option<f64>)> {
    let t: Vec<&str> = l.split_whitespace().collect();
    if t.len() < 5 || t[0] != "Cell" || t[2] != "with" || t[4] != "events" { return None; }
    let v = if t.len() >= 8 { Some(t[7].parse().ok()?) } else { None };
    Some((t[1].parse().ok()?, t[3].parse().ok()?, v))
}
fn top(mut v: Vec<f64>) -> Vec<f64> { v.sort_by(|a, b| b.partial_cmp(a).unwrap()); v.truncate(10); v }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1. + a.abs()) }

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    let max = w.max.map_or(f64::MAX, |m| m as f64);
    if w.sets.is_empty() || w.sets.len() > 4 || w.threads == 0 || w.threads > 8 || w.idmul == 0 || w.max.is_some_and(|m| m > 10_000) { return Err("size".into()); }
    for g in w.sets.iter().flatten() {
        let mut x: Vec<i32> = g.pos.iter().map(|p| p.0).collect();
        x.sort();
        if g.neg >= 0 || g.pos.iter().any(|p| p.0 <= 0 || p.0 > 20_000 || p.1 < 0) || x.windows(2).any(|p| p[0] == p[1]) { return Err("group".into()); }
        if w.max.is_none() && g.pos.iter().map(|p| p.1).sum::<i32>() < -g.neg { return Err("group not separate".into()); }
    }
    if w.sets.iter().any(|s| s.len() > 100) { return Err("size".into()); }
    if w.sets.iter().map(|s| s.len()).sum::<usize>() < 2 { ex.trivial = true; }
    let p = ex.phase("resampling", cfg, &[], || go(&w));
    let steps = match p.outcome {
        Outcome::Returned => p.result.unwrap(),
        Outcome::Harness => return Ok(()),
        Outcome::Deadlock => { ex.viol("C05", "deadlock", p.note); return Ok(()); }
        Outcome::StepLimit | Outcome::CpuLimit => { ex.viol("C05", "no_progress", p.note); return Ok(()); }
        _ => { ex.viol(prop, "crash", format!("{:?} {:?}", p.outcome, p.panic)); return Ok(()); }
    };
    let mut all: Vec<Cell> = vec![];
    let mut next = 0;
    for (k, (set, st)) in w.sets.iter().zip(&steps).enumerate() {
        all.extend(truth(set, &mut next, max, w.idmul));
        let at = format!("after resampling {k}, {} cells, {} threads", all.len(), w.threads);
        let total = all.len();
        let mut used: BTreeSet<usize> = Default::default();
        let mut number: BTreeMap<usize, usize> = Default::default();
        for (n, ids) in &st.cells {
            let Some(c) = all.iter().position(|c| c.ids == *ids) else {
                ex.viol(prop, "members", format!("{at}: cell {n} is listed with events {ids:?}, which do not form a cell")); return Ok(());
            };
            if !used.insert(c) { ex.viol(prop, "counted_twice", format!("{at}: the cell of events {ids:?} has several numbers, one is {n}")); return Ok(()); }
            if *n >= total { ex.viol(prop, "number", format!("{at}: cell number {n}")); return Ok(()); }
            number.insert(*n, c);
        }
        if used.len() > 50 { ex.viol(prop, "too_many", format!("{at}: {} cells kept", used.len())); }
        let kept: Vec<&Cell> = used.iter().map(|c| &all[*c]).collect();
        for (name, f) in [("radius", (|c: &Cell| c.r) as fn(&Cell) -> f64), ("members", |c| c.ids.len() as f64), ("weight", |c| c.w)] {
            let want = top(all.iter().map(f).collect());
            let got = top(kept.iter().map(|c| f(c)).collect());
            if want != got { ex.viol(prop, "largest", format!("{at}: the largest cells by {name} are {want:?}, those kept {got:?}")); return Ok(()); }
        }
        // the first cells
        for n in 0..total.min(10) { if !number.contains_key(&n) { ex.viol(prop, "first", format!("{at}: cell {n} is not kept")); return Ok(()); } }
        // as shown to the user
        let mut sect = "";
        let mut lists: BTreeMap<&str, Vec<(usize, usize, Option<f64>)>> = Default::default();
        for l in &st.lines {
            sect = if l.starts_with("Cells by creation") { "first" } else if l.starts_with("Largest cells by radius") { "radius" } else if l.starts_with("Largest cells by number") { "members" } else if l.starts_with("Cells with largest acc") { "weight" } else if l.starts_with("Randomly") { "random" } else {
                match parse(l) { Some(c) => lists.entry(sect).or_default().push(c), None => ex.probe("log_line_not_understood") }
                sect
            };
        }
        if total > 0 && lists.len() != 5 { ex.probe("log_not_understood"); continue; }
        for (name, l) in &lists {
            if l.len() != total.min(10) { ex.viol(prop, "shown", format!("{at}: {} cells shown as {name}", l.len())); return Ok(()); }
            let mut vals = vec![];
            for (n, m, v) in l {
                let Some(c) = number.get(n) else { ex.viol(prop, "shown", format!("{at}: unknown cell {n} shown as {name}")); return Ok(()); };
                let c = &all[*c];
                if c.ids.len() != *m { ex.viol(prop, "shown", format!("{at}: cell {n} shown with {m} events instead of {}", c.ids.len())); return Ok(()); }
                let x = match *name { "radius" => c.r, "weight" => c.w, "members" => c.ids.len() as f64, _ => 0. };
                if v.is_some_and(|v| !near(v, x)) { ex.viol(prop, "shown", format!("{at}: cell {n} shown with {name} {v:?} instead of {x}")); return Ok(()); }
                vals.push(x);
            }
            let d: BTreeSet<usize> = l.iter().map(|x| x.0).collect();
            if d.len() != l.len() { ex.viol(prop, "shown", format!("{at}: a cell is shown twice as {name}")); return Ok(()); }
            let want: Option<Vec<f64>> = match *name { "radius" => Some(top(all.iter().map(|c| c.r).collect())), "weight" => Some(top(all.iter().map(|c| c.w).collect())), "members" => Some(top(all.iter().map(|c| c.ids.len() as f64).collect())), _ => None };
            if let Some(want) = want { if want.iter().zip(&vals).any(|(a, b)| !near(*a, *b)) { ex.viol(prop, "shown", format!("{at}: largest by {name} shown {vals:?} instead of {want:?}")); return Ok(()); } }
        }
        if total > 10 && w.threads > 1 { ex.probe("more_cells_than_kept_and_several_threads"); }
        if k > 0 { ex.probe("collector_used_again"); }
    }
    Ok(())
}
