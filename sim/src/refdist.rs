//! The event distance of arXiv:2109.07851, by trying all pairings.
pub fn pdist(p: &[f64; 3], q: &[f64; 3], tau: f64) -> f64 {
    let pt = |v: &[f64; 3]| (v[0] * v[0] + v[1] * v[1]).sqrt();
    let d: f64 = (0..3).map(|i| (p[i] - q[i]).powi(2)).sum();
    let t = tau * (pt(p) - pt(q));
    (d + t * t).sqrt()
}
fn best(p: &[[f64; 3]], q: &[[f64; 3]], used: u32, i: usize, tau: f64, memo: &mut std::collections::HashMap<u32, f64>) -> f64 {
    if i == p.len() { return 0.; }
    if let Some(v) = memo.get(&used) { return *v; }
    let mut m = f64::INFINITY;
    for j in 0..q.len() {
        if used >> j & 1 == 0 { m = m.min(pdist(&p[i], &q[j], tau) + best(p, q, used | 1 << j, i + 1, tau, memo)); }
    }
    memo.insert(used, m);
    m
}
pub fn distance(a: &[(i32, [f64; 3])], b: &[(i32, [f64; 3])], tau: f64) -> f64 {
    let mut pids: Vec<i32> = a.iter().chain(b).map(|x| x.0).collect();
    pids.sort(); pids.dedup();
    let mut d = 0.;
    for t in pids {
        let mut p: Vec<[f64; 3]> = a.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
        let mut q: Vec<[f64; 3]> = b.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
        while p.len() < q.len() { p.push([0.; 3]); }
        while q.len() < p.len() { q.push([0.; 3]); }
        d += best(&p, &q, 0, 0, tau, &mut Default::default());
    }
    d
}
