//! Execution context of one simulated run (one or more processes on one
//! simulated disk), with recording and replay of every decision and fault.
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use simrt::{fk, Cfg, Decision, Fault, Outcome, Phase};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation { pub prop: String, pub class: String, pub msg: String }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct PhaseRec { pub label: String, pub decisions: Vec<Decision>, pub faults: Vec<Fault> }

#[derive(Default)]
pub struct Ex {
    pub replay: Option<Vec<PhaseRec>>,
    pub phases: Vec<PhaseRec>,
    pub viol: Vec<Violation>,
    pub harness: Vec<String>,
    pub probes: BTreeMap<String, u64>,
    pub fired: [u64; fk::MAX],
    pub points: u64, pub switches: u64, pub sim_ns: u64, pub nphases: u64, pub new_guards: u64, pub max_threads: u32,
    pub trace: u64, pub sched: u64, pub fsops: u64,
    pub verbose: bool,
    pub trivial: bool,
}

impl Ex {
    pub fn phase<R: Serialize + DeserializeOwned, F: FnOnce() -> R>(&mut self, label: &str, cfg: &Cfg, faults: &[Fault], f: F) -> Phase<R> {
        let n = self.phases.len();
        let p = match &self.replay {
            Some(r) => {
                let rec = r.get(n).cloned().unwrap_or_default();
                simrt::run_phase(cfg, &rec.faults, Some(&rec.decisions), f)
            }
            None => simrt::run_phase(cfg, faults, None, f),
        };
        self.phases.push(PhaseRec { label: label.into(), decisions: p.decisions.clone(), faults: p.faults.clone() });
        for i in 0..fk::MAX { self.fired[i] += p.fired[i]; }
        self.points += p.points; self.switches += p.switches; self.sim_ns += p.sim_ns; self.nphases += 1;
        self.new_guards += p.new_guards as u64; self.max_threads = self.max_threads.max(p.nthreads); self.fsops += p.nfsops as u64;
        self.trace = crate::rng::mix(self.trace, p.trace_hash);
        self.sched = crate::rng::mix(self.sched, p.sched_hash);
        if p.outcome == Outcome::Harness { self.harness.push(format!("{label}: {}", p.note)); }
        if p.dec_overflow { self.probe("decision_log_overflow"); }
        if self.verbose {
            eprintln!("phase {label}: {:?} {} panic={:?} points={} switches={} threads={} fsops={} sim_ns={} trace={:016x} fired={:?}", p.outcome, p.note, p.panic, p.points, p.switches, p.nthreads, p.nfsops, p.sim_ns, p.trace_hash,
                p.faults);
            if !p.stderr.is_empty() { eprintln!("--- stderr\n{}---", p.stderr); }
        }
        p
    }
    pub fn viol(&mut self, prop: &str, class: &str, msg: String) {
        if self.verbose { eprintln!("violation {prop} {class}: {msg}"); }
        self.viol.push(Violation { prop: prop.into(), class: class.into(), msg });
    }
    pub fn probe(&mut self, name: &str) { *self.probes.entry(name.into()).or_insert(0) += 1; }
}

/// counters over many runs
#[derive(Default, Serialize)]
pub struct Agg {
    pub runs: u64, pub nontrivial: u64, pub phases: u64, pub points: u64, pub switches: u64, pub sim_ns: u64, pub fsops: u64,
    pub new_guards: u64, pub max_threads: u32, pub fired: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>,
    pub scenarios: BTreeMap<String, u64>,
    #[serde(skip)] pub sched: HashSet<u64>,
    pub distinct_schedules: u64, pub samples: Vec<serde_json::Value>,
}
impl Agg {
    pub fn add(&mut self, scn: &str, ex: &Ex) {
        self.runs += 1;
        if !ex.trivial { self.nontrivial += 1; }
        self.phases += ex.nphases; self.points += ex.points; self.switches += ex.switches; self.sim_ns += ex.sim_ns; self.fsops += ex.fsops;
        self.new_guards += ex.new_guards; self.max_threads = self.max_threads.max(ex.max_threads);
        for i in 0..fk::MAX { if ex.fired[i] > 0 { *self.fired.entry(fk::NAMES[i].into()).or_insert(0) += ex.fired[i]; } }
        for (k, v) in &ex.probes { *self.probes.entry(k.clone()).or_insert(0) += v; }
        *self.scenarios.entry(scn.into()).or_insert(0) += 1;
        if !ex.trivial { self.sched.insert(ex.sched); }
    }
}

/// Swarm: every run draws its own scheduler and fault mix.
pub fn gen_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg { seed: r.next(), ncpu: *r.pick(&[1, 2, 4, 8]), ..Default::default() };
    match r.below(20) {
        0 => { c.policy = 2; }
        1..=5 => { c.policy = 1; c.pct_depth = r.range(1, 12) as u32; c.pct_len = *r.pick(&[3_000, 20_000, 100_000, 400_000]); }
        _ => { c.policy = 0; c.gap = *r.pick(&[3, 10, 30, 100, 300, 1000, 3000, 10000]); }
    }
    if r.chance(35) { c.hot_mod = *r.pick(&[30, 100, 400]); c.hot_pct = *r.pick(&[5, 30, 100]); c.hot_budget = *r.pick(&[20, 100, 1000]); }
    if r.chance(30) { c.stall_pct = *r.pick(&[20, 200, 600]); c.stall_len = *r.pick(&[300, 3000, 30000, 300000]); }
    if r.chance(25) { c.spurious_pm = *r.pick(&[20, 100, 400]); }
    if r.chance(15) { c.clock_jump_pm = *r.pick(&[50, 400]); }
    c
}
/// benign I/O behaviour: short and interrupted transfers
pub fn gen_benign_io(r: &mut Rng, c: &mut Cfg) {
    if r.chance(50) { c.short_read_pm = *r.pick(&[30, 200, 600, 950]); }
    if r.chance(30) { c.eintr_read_pm = *r.pick(&[20, 150]); }
    if r.chance(40) { c.short_write_pm = *r.pick(&[30, 200, 600, 950]); }
    if r.chance(25) { c.eintr_write_pm = *r.pick(&[20, 150]); }
}
