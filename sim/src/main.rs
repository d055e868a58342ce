mod api;
mod collect;
mod e2e;
mod ex;
mod files;
mod hist;
mod recorder;
mod refdist;
mod resample;
mod rng;
mod shrink;
mod tools;
mod tree;
mod unw;

use ex::{Agg, Ex, PhaseRec, Violation};
use serde_json::{json, Value};
use simrt::Cfg;
use std::time::{Duration, Instant};

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

/// scenarios that decide a property, with weights
fn plan(prop: &str) -> Vec<(u64, &'static str)> {
    match prop {
        "C01" | "C02" | "C04" => vec![(1, "resample")],
        "C03" => vec![(19, "resample"), (1, "tree")],
        "C05" => vec![(4, "resample"), (2, "e2e"), (1, "tools")],
        "C06" | "C11" => vec![(1, "e2e")],
        "C10" => vec![(2, "e2e"), (1, "unw")],
        "C07" | "C08" | "C09" => vec![(3, "e2e"), (1, "tools")],
        "C12" => vec![(6, "tools"), (1, "tree")],
        "C13" => vec![(1, "tools")],
        "C16" => vec![(1, "collect")],
        "C17" => vec![(1, "hist")],
        "C14" | "C15" => vec![(1, "api")],
        "C18" => vec![(2, "api"), (3, "e2e"), (2, "tools")],
        _ => vec![],
    }
}

fn gen_spec(prop: &str, seed: u64) -> Value {
    let mut r = rng::Rng::new(seed);
    let p = plan(prop);
    let mut k = r.below(p.iter().map(|x| x.0).sum());
    let mut scn = p[0].1;
    for (w, s) in &p { if k < *w { scn = s; break; } k -= w; }
    let mut cfg = ex::gen_cfg(&mut r);
    let w = match scn {
        "resample" => serde_json::to_value(resample::gen(prop, &mut r, &mut cfg)).unwrap(),
        "e2e" => serde_json::to_value(e2e::gen(prop, &mut r, &mut cfg)).unwrap(),
        #[cfg(feature = "mw")]
        "api" => serde_json::to_value(api::gen(prop, &mut r, &mut cfg)).unwrap(),
        "collect" => serde_json::to_value(collect::gen(&mut r, &mut cfg)).unwrap(),
        "hist" => serde_json::to_value(hist::gen(&mut r, &mut cfg)).unwrap(),
        "tree" => serde_json::to_value(tree::gen(prop, &mut r, &mut cfg)).unwrap(),
        "unw" => serde_json::to_value(unw::gen(&mut r, &mut cfg)).unwrap(),
        "tools" => serde_json::to_value(tools::gen(prop, &mut r, &mut cfg)).unwrap(),
        _ => unreachable!(),
    };
    json!({"scn": scn, "prop": prop, "cfg": cfg, "w": w})
}

pub fn run_spec(spec: &Value, replay: Option<Vec<PhaseRec>>, verbose: bool) -> Ex {
    let mut ex = Ex { replay, verbose, ..Default::default() };
    let cfg: Cfg = serde_json::from_value(spec["cfg"].clone()).unwrap_or_default();
    let prop = spec["prop"].as_str().unwrap_or("").to_string();
    let r = match spec["scn"].as_str().unwrap_or("") {
        "resample" => resample::run(&prop, &spec["w"], &cfg, &mut ex),
        "e2e" => e2e::run(&prop, &spec["w"], &cfg, &mut ex),
        #[cfg(feature = "mw")]
        "api" => api::run(&prop, &spec["w"], &cfg, &mut ex),
        "collect" => collect::run(&prop, &spec["w"], &cfg, &mut ex),
        "hist" => hist::run(&prop, &spec["w"], &cfg, &mut ex),
        "tree" => tree::run(&prop, &spec["w"], &cfg, &mut ex),
        "unw" => unw::run(&prop, &spec["w"], &cfg, &mut ex),
        "tools" => tools::run(&prop, &spec["w"], &cfg, &mut ex),
        s => Err(format!("unknown scenario {s}")),
    };
    if let Err(e) = r { ex.harness.push(format!("invalid: {e}")); }
    ex
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> { self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str()) }
    fn num(&self, k: &str, d: u64) -> u64 { self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d) }
}

fn main() {
    simrt::check_layout();
    let raw = std::env::var("SIM_ARGS").unwrap_or_default();
    let a = Args(raw.split('\x1f').filter(|s| !s.is_empty()).map(String::from).collect());
    let code = match a.0.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("spec") => { println!("{}", gen_spec(a.get("--prop").unwrap(), rng::mix(rng::mix(a.num("--seed", 1), hash(a.get("--prop").unwrap())), a.num("--index", 0)))); 0 }
        Some("one") => one(&a),
        Some("shrink") => do_shrink(&a),
        Some("replay") => do_replay(&a),
        Some("determinism") => determinism(&a),
        _ => { eprintln!("usage: simrun run|one|shrink|replay|determinism"); 2 }
    };
    std::process::exit(code);
}
fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
fn spec_at(a: &Args, idx: u64) -> Value {
    let prop = a.get("--prop").unwrap();
    gen_spec(prop, rng::mix(rng::mix(a.num("--seed", 1), hash(prop)), idx))
}

fn run(a: &Args) -> i32 {
    let prop = a.get("--prop").unwrap().to_string();
    let (shard, n) = (a.num("--shard", 0), a.num("--nshards", 1));
    let secs = a.num("--secs", 20);
    let max = a.num("--max", u64::MAX);
    let known: Vec<String> = a.get("--known").map(|s| s.split(',').map(String::from).collect()).unwrap_or_default();
    let t0 = Instant::now();
    let mut agg = Agg::default();
    let mut fails: Vec<Value> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut others: std::collections::BTreeMap<String, u64> = Default::default();
    let mut known_seen: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    let mut idx = shard;
    let mut done = 0;
    let mut last_idx = 0;
    while done < max && t0.elapsed() < Duration::from_secs(secs) {
        let spec = spec_at(a, idx);
        let ex = run_spec(&spec, None, false);
        if ex.harness.iter().any(|h| !h.starts_with("invalid")) || (!ex.harness.is_empty()) {
            harness.push(format!("run {idx}: {}", ex.harness.join("; ")));
            if harness.len() > 5 { break; }
        }
        agg.add(spec["scn"].as_str().unwrap(), &ex);
        if agg.samples.len() < 2 && !ex.trivial {
            let s = spec.to_string();
            agg.samples.push(json!({"run": idx, "phases": ex.nphases, "points": ex.points, "context_switches": ex.switches, "spec": if s.len() > 700 { json!(format!("{}...", &s[..700])) } else { spec.clone() }}));
        }
        let mine: Vec<&Violation> = ex.viol.iter().filter(|v| v.prop == prop).collect();
        for v in ex.viol.iter().filter(|v| v.prop != prop) { *others.entry(format!("{}:{}", v.prop, v.class)).or_insert(0) += 1; }
        for v in &mine { if known.contains(&v.class) { let e = known_seen.entry(v.class.clone()).or_insert((0, v.msg.clone())); e.0 += 1; } }
        if let Some(v) = mine.iter().find(|v| !known.contains(&v.class)) {
            if !fails.iter().any(|f| f["class"] == json!(v.class)) {
                fails.push(json!({"prop": prop, "class": v.class, "msg": v.msg, "index": idx, "spec": spec}));
            }
            if fails.len() >= 3 || a.get("--first").is_some() { idx += n; done += 1; last_idx = idx; break; }
        }
        last_idx = idx;
        idx += n;
        done += 1;
    }
    agg.distinct_schedules = agg.sched.len() as u64;
    let m = simrt::shm();
    let ng = simrt::nguards() as usize;
    let hit = m.guards_hit[..ng.min(simrt::MAX_GUARDS)].iter().filter(|x| **x != 0).count();
    let scheds: Vec<u64> = agg.sched.iter().copied().collect();
    let hits: Vec<usize> = (0..ng).filter(|i| m.guards_hit[*i] != 0).collect();
    let out = json!({"prop": prop, "agg": agg, "fails": fails, "harness": harness, "others": others, "known": known_seen, "wall_s": t0.elapsed().as_secs_f64(), "runs": done, "last_index": last_idx,
        "guards": ng, "guards_hit": hit, "sched_hashes": scheds, "guard_ids": hits});
    std::fs::write(a.get("--out").unwrap(), out.to_string()).unwrap();
    if !harness.is_empty() { 2 } else if fails.is_empty() { 0 } else { 1 }
}

fn one(a: &Args) -> i32 {
    let spec = match a.get("--spec") { Some(f) => serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap(), None => spec_at(a, a.num("--index", 0)) };
    if a.get("-q").is_none() { println!("{spec}"); }
    let ex = run_spec(&spec, None, true);
    println!("{}", serde_json::to_string_pretty(&json!({"viol": ex.viol, "harness": ex.harness, "probes": ex.probes, "trace": format!("{:016x}", ex.trace)})).unwrap());
    0
}

fn do_shrink(a: &Args) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(a.get("--in").unwrap()).unwrap()).unwrap();
    let t = shrink::Target { prop: f["prop"].as_str().unwrap().into(), class: f["class"].as_str().unwrap().into(), until: shrink::deadline(a.num("--secs", 60)) };
    let (spec, r) = shrink::minimise(&f["spec"], &t);
    let (phases, ex) = match r {
        Some((p, ex)) => (p, ex),
        None => {
            // fall back to the run as it was found
            let ex = run_spec(&f["spec"], None, false);
            let out = json!({"property": t.prop, "class": t.class, "msg": f["msg"], "index": f["index"], "seed": f["seed"], "spec": f["spec"], "phases": ex.phases, "minimised": false, "trace": format!("{:016x}", ex.trace)});
            std::fs::write(a.get("--out").unwrap(), serde_json::to_string_pretty(&out).unwrap()).unwrap();
            return 0;
        }
    };
    let v = ex.viol.iter().find(|v| v.prop == t.prop && v.class == t.class).unwrap();
    let out = json!({"property": t.prop, "class": t.class, "msg": v.msg, "index": f["index"], "seed": f["seed"], "spec": spec, "phases": phases, "minimised": true, "trace": format!("{:016x}", ex.trace)});
    std::fs::write(a.get("--out").unwrap(), serde_json::to_string_pretty(&out).unwrap()).unwrap();
    0
}

fn do_replay(a: &Args) -> i32 {
    let file = a.get("--file").unwrap_or_else(|| a.0.get(1).unwrap());
    let f: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let phases: Vec<PhaseRec> = serde_json::from_value(f["phases"].clone()).unwrap();
    let ex = run_spec(&f["spec"], Some(phases), a.0.iter().any(|x| x == "-v"));
    let hit = ex.viol.iter().find(|v| json!(v.prop) == f["property"] && json!(v.class) == f["class"]);
    let same = json!(format!("{:016x}", ex.trace)) == f["trace"];
    match hit {
        Some(v) => { println!("reproduced property={} class={} same_trace={} {}", v.prop, v.class, same, v.msg); 1 }
        None => { println!("not reproduced; violations: {:?} harness: {:?}", ex.viol, ex.harness); 0 }
    }
}

/// run the same seeds twice, and again from the recorded decisions; any
/// difference is a source of nondeterminism the simulator does not own
fn determinism(a: &Args) -> i32 {
    let (from, n, step) = (a.num("--from", 0), a.num("--count", 50), a.num("--step", 1));
    let mut bad = 0;
    for i in 0..n {
        let spec = spec_at(a, from + i * step);
        let x = run_spec(&spec, None, false);
        let y = run_spec(&spec, None, false);
        let z = run_spec(&spec, Some(x.phases.clone()), false);
        if x.trace != y.trace || x.trace != z.trace || x.harness != y.harness {
            bad += 1;
            println!("run {}: {} {:016x} {:016x} replay {:016x} {:?}", from + i * step, spec["scn"], x.trace, y.trace, z.trace, x.harness);
        }
        if a.get("--print").is_some() { println!("{} {:016x}", from + i * step, x.trace); }
    }
    println!("determinism: {n} runs, {bad} differ");
    if bad > 0 { 1 } else { 0 }
}
