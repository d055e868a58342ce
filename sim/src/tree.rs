//! Vantage-point trees large enough for their parallel construction: the
//! partitions of C12 and the neighbour search of C03.
use crate::ex::{self, Ex};
use crate::rng::Rng;
use cres::neighbour_search::{NeighbourSearch, NeighbourSearchAlgo, TreeSearch};
use cres::partition::VPTreePartition;
use cres::traits::Distance;
use cres::vptree::VPTree;
use noisy_float::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{Cfg, Outcome, Phase};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub n: usize,
    pub seed: u64,
    /// coordinates are integers below this
    pub grid: u64,
    /// points of different classes are infinitely far from each other
    pub classes: u64,
    pub linf: bool,
    /// negative binary exponent of the unit of length
    #[serde(default)]
    pub shift: u32,
    /// all distances are between 1 and 1 + 2^-near
    #[serde(default)]
    pub near: Option<u32>,
    pub depth: u32,
    pub threads: usize,
    pub threads2: usize,
    pub cfg2: Cfg,
    pub queries: Vec<(usize, usize)>,
    pub max: Option<u32>,
}
pub fn gen(prop: &str, r: &mut Rng, cfg: &mut Cfg) -> W {
    let depth = match prop { "C12" => r.us(0, 7), _ => 0 } as u32;
    let need = if depth == 0 { 1 } else { 3 * (1usize << (depth - 1)) - 1 };
    let n = match r.below(8) { 0 => need, 1 => need + r.us(0, 40), 2 => r.us(990, 1010), 3 => r.us(1990, 2010), 4 => r.us(2500, 4500), _ => r.us(1000, 2500) }.max(need);
    let mut cfg2 = ex::gen_cfg(r);
    // keep the decision log short
    for c in [cfg, &mut cfg2] { if c.gap < 100 { c.gap *= 30; } }
    W {
        n, seed: r.next(), grid: *r.pick(&[4, 100, 3000, 1 << 20, 1 << 20, 1 << 20, 1 << 24, 1 << 24]), classes: *r.pick(&[1, 1, 1, 2, 5]), linf: r.chance(50), shift: *r.pick(&[0, 0, 10, 20, 30]), near: if r.chance(25) { Some(r.below(45) as u32) } else { None }, depth,
        threads: r.us(1, 8), threads2: r.us(1, 8), cfg2,
        queries: (0..3).map(|_| (r.us(0, n - 1), *r.pick(&[1, 3, 12, 40]))).collect(),
        max: if r.chance(40) { Some(*r.pick(&[1, 1000, 30000, 1 << 18])) } else { None },
    }
}
#[derive(Clone)]
struct D { p: Vec<(i64, i64, u64)>, linf: bool, unit: f64, near: Option<u32>, seed: u64 }
impl D {
    fn new(w: &W) -> Self {
        let mut r = Rng::new(w.seed);
        D { p: (0..w.n).map(|_| (r.below(w.grid) as i64, r.below(w.grid) as i64, r.below(w.classes))).collect(), linf: w.linf, unit: 0.5f64.powi(w.shift as i32), near: w.near, seed: w.seed }
    }
    fn d(&self, a: usize, b: usize) -> f64 {
        if let Some(k) = self.near {
            if a == b { return 0.; }
            let h = crate::rng::mix(self.seed, ((a.min(b) as u64) << 32) | a.max(b) as u64) >> (12 + k);
            return 1. + h as f64 * 0.5f64.powi(52);
        }
        let (a, b) = (self.p[a], self.p[b]);
        if a.2 != b.2 { return f64::INFINITY; }
        let (x, y) = ((a.0 - b.0).abs(), (a.1 - b.1).abs());
        (if self.linf { x.max(y) as f64 } else { (x + y) as f64 }) * self.unit
    }
}
impl Distance<usize> for D { fn distance(&self, a: &usize, b: &usize) -> N64 { n64(self.d(*a, *b)) } }

/// distances as bits: they may be infinite
type Tree = Vec<(usize, u64)>;
fn build(w: &W, d: &D, threads: usize) -> Tree {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
    let t = VPTree::from_par_iter_with_dist_and_depth((0..w.n).into_par_iter(), d.clone(), w.depth as usize);
    VPTreePartition::from(t).into_tree().into_iter().map(|b| (b.pt, f64::from(b.r).to_bits())).collect()
}
fn neighbours(w: &W, d: &D, threads: usize) -> Vec<Tree> {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build_global().unwrap();
    let max = n64(w.max.map_or(f64::MAX, |m| m as f64 * d.unit));
    let t = TreeSearch::new_with_dist(w.n, d.clone(), max);
    w.queries.iter().map(|(q, k)| (&t).nearest(q).take(*k).map(|(i, d)| (i, f64::from(d).to_bits())).collect()).collect()
}
/// every radius is the median distance of what is left of the region
fn check_tree(t: &Tree, d: &D, i: usize, pts: &[usize]) -> Result<(), (&'static str, String)> {
    if i >= t.len() { return Ok(()); }
    let (v, r) = (t[i].0, f64::from_bits(t[i].1));
    if !pts.contains(&v) { return Err(("vantage_point", format!("vantage point {i} is not one of the {} points left in its region", pts.len()))); }
    let mut rest: Vec<(f64, usize)> = pts.iter().filter(|p| **p != v).map(|p| (d.d(v, *p), *p)).collect();
    rest.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let m = rest.len() / 2;
    if rest.is_empty() { return Err(("unsupported", format!("vantage point {i} is the only point in its region"))); }
    if r != rest[m].0 { return Err(("radius", format!("radius {r} of vantage point {i} instead of the median distance {}", rest[m].0))); }
    // which of several points at the same distance are inside is open
    if m > 0 && rest[m - 1].0 == r { return Ok(()); }
    let (a, b) = rest.split_at(m);
    check_tree(t, d, 2 * i + 1, &a.iter().map(|x| x.1).collect::<Vec<_>>())?;
    check_tree(t, d, 2 * i + 2, &b.iter().map(|x| x.1).collect::<Vec<_>>())
}

fn end<R>(prop: &str, ex: &mut Ex, p: &Phase<R>) {
    match p.outcome {
        Outcome::Harness => {}
        Outcome::Deadlock => ex.viol("C05", "deadlock", format!("tree construction: {}", p.note)),
        Outcome::StepLimit | Outcome::CpuLimit => ex.viol("C05", "no_progress", format!("tree construction does not terminate: {}", p.note)),
        _ => ex.viol(prop, "tree_failed", format!("{:?} {:?}", p.outcome, p.panic)),
    }
}

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    let need = if w.depth == 0 { 1 } else { 3 * (1usize << (w.depth - 1)) - 1 };
    if w.n < need || w.n > 5000 || w.depth > 8 || w.shift > 60 || w.near.is_some_and(|n| n > 44) || w.grid == 0 || w.grid > 1 << 30 || w.classes == 0 || w.threads == 0 || w.threads > 8 || w.threads2 == 0 || w.threads2 > 8 || w.queries.iter().any(|q| q.0 >= w.n || q.1 > 100) { return Err("size".into()); }
    let d = D::new(&w);
    if prop == "C03" {
        let p = ex.phase("search", cfg, &[], || neighbours(&w, &d, w.threads));
        let Some(res) = p.result else { end(prop, ex, &p); return Ok(()) };
        for ((q, k), got) in w.queries.iter().zip(&res) {
            let mut want: Vec<f64> = (0..w.n).filter(|p| p != q).map(|p| d.d(*q, p)).filter(|x| *x <= w.max.map_or(f64::MAX, |m| m as f64 * d.unit)).collect();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            want.truncate(*k);
            let got: Vec<(usize, f64)> = got.iter().map(|x| (x.0, f64::from_bits(x.1))).collect();
            let g: Vec<f64> = got.iter().map(|x| x.1).collect();
            if g != want { let n = g.iter().zip(&want).take_while(|x| x.0 == x.1).count(); ex.viol("C03", "tree_neighbours", format!("{} points: neighbour {n} of {q} is at distance {:?} instead of {:?}", w.n, g.get(n), want.get(n))); return Ok(()); }
            let mut ids: Vec<usize> = got.iter().map(|x| x.0).collect();
            ids.sort(); ids.dedup();
            if ids.len() != got.len() || ids.contains(q) || got.iter().any(|(i, x)| d.d(*q, *i) != *x) { ex.viol("C03", "tree_neighbours", format!("{} points: neighbours of {q} repeat, contain itself or have a different distance: {got:?}", w.n)); return Ok(()); }
        }
        return Ok(());
    }
    let p = ex.phase("tree", cfg, &[], || build(&w, &d, w.threads));
    let Some(t) = p.result else { end(prop, ex, &p); return Ok(()) };
    if t.len() + 1 != 1 << w.depth { ex.viol("C12", "regions", format!("{} regions instead of {}", t.len() + 1, 1 << w.depth)); return Ok(()); }
    if let Err((c, m)) = check_tree(&t, &d, 0, &(0..w.n).collect::<Vec<_>>()) { ex.viol("C12", c, format!("{} points: {m}", w.n)); return Ok(()); }
    let p = ex.phase("tree2", &w.cfg2, &[], || build(&w, &d, w.threads2));
    let Some(t2) = p.result else { end(prop, ex, &p); return Ok(()) };
    if t2 != t { let k = t.iter().zip(&t2).take_while(|x| x.0 == x.1).count(); ex.viol("C12", "depends_on_threads", format!("{} points: bisection {k} is {:?} with {} threads and {:?} with {}", w.n, t[k], w.threads, t2[k], w.threads2)); }
    Ok(())
}
