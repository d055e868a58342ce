//! The C interface, called from several threads: C14, C15 and C18.
#![cfg(feature = "mw")]
use crate::e2e::{self, abs, inpath, is_benign, outpath, Setup};
use crate::ex::{self, Ex};
use crate::files::*;
use crate::resample::{momenta, set_log};
use crate::rng::Rng;
use cres::cluster::DefaultClustering;
use cres::event::Event;
use cres::io::{Converter, FileReader};
use cres::traits::{Clustering, TryConvert};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{fk, fs, Cfg, Fault, Outcome};
use std::ffi::{c_char, c_void, CString};

// ---- the interface as a C program sees it
#[repr(C)]
struct TypeSet { pid: i32, momenta: *const [f64; 4], n_momenta: usize }
#[repr(C)]
struct View { id: usize, weights: *const f64, type_sets: *const TypeSet, n_weights: usize, n_type_sets: usize }
#[repr(C)]
struct DistanceFn { fun: unsafe extern "C" fn(*mut c_void, *const View, *const View) -> f64, data: *mut c_void }
#[repr(C)]
struct JetDef { algorithm: i32, radius: f64, min_pt: f64 }
#[repr(C)]
struct Opt { infiles: *mut *mut c_char, n_infiles: usize, outdir: *mut c_char, distance: *mut DistanceFn, ptweight: f64, jet_def: JetDef, search: i32, max_cell_size: f64 }
extern "C" {
    fn cres_run(opt: *const Opt) -> i32;
    fn cres_get_last_err(buf: *mut c_char, len: usize) -> i32;
    fn cres_print_last_err();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    pub job: usize,
    /// 0 healthy, 1 an input does not exist, 2 an input is malformed, 3 the output directory is a file,
    /// 4 an input without a file name, 5 no such directory can be created, 6 the distance is not a number,
    /// 7 no inputs at all (null pointer), 8 outputs next to the inputs, 9 an input twice, 10 a truncated input, 11 an undefined momentum
    pub bad: u8,
    pub naive: bool,
    /// distance function of the caller
    pub cb: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step { Run(Call), Get(usize), Print }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub jobs: Vec<e2e::W>,
    /// one per calling thread
    pub scripts: Vec<Vec<Step>>,
    pub threads: usize,
    pub log: usize,
    /// thousandth of all file operations, kind, parameter
    pub faults: Vec<(u64, u32, i64)>,
    /// the caller's distance separates events with even from those with odd numbers
    #[serde(default)]
    pub inf: bool,
}

pub fn gen(prop: &str, r: &mut Rng, cfg: &mut Cfg) -> W {
    let njobs = r.us(1, 2);
    let ncall = match prop { "C18" => if r.chance(80) { 1 } else { 2 }, _ => r.us(1, 3) };
    let mut jobs = vec![];
    for j in 0..njobs {
        let mut scratch = *cfg;
        let mut w = e2e::gen("C05", r, &mut scratch);
        w.req.clear(); w.minw = 0.; w.useed = None; w.comp = None; w.stale.clear(); w.outdir = 0; w.argfile = false; w.strat = 0;
        w.opts.lep = None; w.opts.pho = None; w.opts.nu = false;
        w.threads = 8;
        for f in &mut w.files { f.name = format!("j{j}{}", f.name); f.ev.truncate(9); }
        jobs.push(w);
    }
    let call = |r: &mut Rng, bad: u8| Step::Run(Call { job: r.us(0, njobs - 1), bad, naive: r.chance(30), cb: r.chance(match prop { "C15" => 90, _ => 25 }) });
    let mut scripts = vec![];
    for _ in 0..ncall {
        let mut s = vec![];
        for _ in 0..r.us(1, match prop { "C15" => 2, _ => 4 }) {
            let bad = if r.chance(match prop { "C15" => 5, "C18" => 45, _ => 55 }) { match prop { "C18" => *r.pick(&[1, 2, 2, 2, 3, 5]), _ => r.range(1, 11) as u8 } } else { 0 };
            s.push(call(r, bad));
            if bad == 6 { if let Some(Step::Run(c)) = s.last_mut() { c.cb = true; } }
            for _ in 0..if prop == "C14" { r.us(0, 3) } else { 0 } { s.push(if r.chance(85) { Step::Get(match r.below(6) { 0 => r.us(0, 3), 1 => r.us(0, 300), _ => r.us(0, 120) }) } else { Step::Print }); }
        }
        if r.chance(70) { s.push(call(r, 0)); }
        if r.chance(30) { s.push(Step::Get(r.us(0, 200))); }
        scripts.push(s);
    }
    ex::gen_benign_io(r, cfg);
    // several complete runs: keep the decision log short
    if cfg.gap < 10 { cfg.gap *= 10; }
    cfg.tty = r.below(2) as u32;
    let mut faults = vec![];
    if r.chance(match prop { "C15" => 10, _ => 50 }) {
        for _ in 0..r.us(1, 3) {
            let kind = *r.pick(&[fk::EIO_READ, fk::ENOSPC_ONCE, fk::EIO_WRITE, fk::OPEN_ERR, fk::MKDIR_ERR, fk::OPEN_EINTR, fk::EIO_READ, fk::EIO_WRITE]);
            faults.push((r.below(1000), kind, if kind == fk::OPEN_ERR || kind == fk::MKDIR_ERR { *r.pick(&[13, 28, 24, 2]) } else { 1 }));
        }
    }
    let inf = prop == "C15" && r.chance(30);
    // reaches everything at a finite distance
    if inf { for j in &mut jobs { if j.max.is_none() && r.chance(50) { j.max = Some(f64::MAX); } } }
    W { jobs, scripts, threads: r.us(1, 6), log: match prop { "C18" => *r.pick(&[3, 3, 3, 3, 3, 2, 4, 0]), _ => *r.pick(&[0, 0, 1, 3, 3, 4]) }, faults, inf }
}

// ---- what a distance function of the caller checks
struct Table { tau: f64, nan: bool, inf: bool, ev: Vec<Vec<(i32, Vec<[f64; 4]>)>>, w: Vec<Vec<f64>>, magic: u64 }
static mut SEEN: Vec<(String, String)> = vec![];
static mut NCB: u64 = 0;
#[allow(static_mut_refs)]
fn seen(class: &str, msg: String) { let _f = simrt::Freeze::new(); unsafe { if SEEN.len() < 5 { SEEN.push((class.into(), msg)); } } }
type Objs = Vec<(i32, [f64; 3])>;
unsafe fn view(t: &Table, v: *const View) -> Objs {
    let v = &*v;
    let mut o = vec![];
    let sets = if v.n_type_sets == 0 { &[][..] } else { std::slice::from_raw_parts(v.type_sets, v.n_type_sets) };
    let mut got = vec![];
    for s in sets {
        let m = if s.n_momenta == 0 { vec![] } else { std::slice::from_raw_parts(s.momenta, s.n_momenta).to_vec() };
        for p in &m { o.push((s.pid, [p[1], p[2], p[3]])); }
        got.push((s.pid, m));
    }
    let want = t.ev.get(v.id);
    if want.is_none() { seen("view_id", format!("view of event {} of {}", v.id, t.ev.len())); return o; }
    if want != Some(&got) { seen("view_momenta", format!("event {}: the view shows {got:?} instead of {:?}", v.id, want.unwrap())); }
    if v.n_weights != 1 { seen("view_weights", format!("event {}: {} weights in the view instead of 1", v.id, v.n_weights)); return o; }
    let x = *v.weights;
    let ok = &t.w[v.id];
    if !t.nan && !ok.is_empty() && !ok.iter().any(|y| (x - y).abs() <= 1e-9 * (y.abs() + ok[0].abs())) || !x.is_finite() { seen("view_weights", format!("event {}: weight {x:e} in the view instead of one of {ok:?}", v.id)); }
    o
}
unsafe extern "C" fn distance(data: *mut c_void, a: *const View, b: *const View) -> f64 {
    { let _f = simrt::Freeze::new(); NCB += 1; }
    let t = &*(data as *const Table);
    if t.magic != 0x5eed_5eed { seen("user_data", "the callback got another pointer".into()); return 0.; }
    let (x, y) = (view(t, a), view(t, b));
    if t.nan && ((*a).id + (*b).id) % 3 == 0 { return f64::NAN; }
    if t.inf && ((*a).id + (*b).id) % 2 == 1 { return f64::INFINITY; }
    crate::refdist::distance(&x, &y, t.tau)
}

#[derive(Serialize, Deserialize, Default)]
struct Done { rc: i32, open: usize, step: usize, lvl: usize, msg: Option<String>, panics: bool }
#[derive(Serialize, Deserialize, Default)]
struct Out { done: Vec<Vec<Done>>, seen: Vec<(String, String)>, ncb: u64, lvl: usize, open: usize, wrong: Vec<(String, String)>, printed: Vec<String> }

fn outname(t: usize, k: usize) -> String { format!("o{t}_{k}/x") }
fn last_err(len: usize) -> (i32, Vec<u8>) {
    let mut buf = vec![0xA5u8; len + 64];
    let rc = unsafe { cres_get_last_err(buf.as_mut_ptr() as *mut c_char, len) };
    (rc, buf)
}
fn script(w: &W, t: usize, tabs: &[Table], nans: &[Table]) -> (Vec<Done>, Vec<(String, String)>, Vec<String>) {
    let (mut done, mut wrong, mut printed) = (vec![], vec![], vec![]);
    let mut cur: Option<String> = None;
    let cs = |s: &str| CString::new(s).unwrap().into_raw();
    for (k, s) in w.scripts[t].iter().enumerate() {
        match s {
            Step::Run(c) => {
                let job = &w.jobs[c.job];
                let mut names: Vec<*mut c_char> = job.files.iter().map(|f| cs(&inpath(f))).collect();
                let at = k % names.len();
                // outputs are written for event files only
                let evs: Vec<&InFile> = job.files.iter().filter(|f| f.fmt != 3).collect();
                let ev = evs[k % evs.len()];
                match c.bad { 1 => names[at] = cs(&format!("nowhere{t}_{k}.hepmc")), 2 => names.push(cs("bad.hepmc")), 4 => names[at] = cs(".."), 7 => names.clear(), 9 => names.push(cs(&inpath(ev))), 10 => names.push(cs("cut.hepmc.gz")), 11 => names.push(cs("undefined.hepmc")), _ => {} }
                let out = match c.bad { 3 => format!("blocked/o{t}_{k}"), 5 => "/nowhere/out".into(), 8 => if ev.dir.is_empty() { ".".into() } else { ev.dir.clone() }, _ => outname(t, k) };
                let tab = if c.bad == 6 { &nans[c.job] } else { &tabs[c.job] };
                let mut d = DistanceFn { fun: distance, data: tab as *const Table as *mut c_void };
                let o = Opt {
                    n_infiles: names.len(), infiles: if names.is_empty() { std::ptr::null_mut() } else { names.as_mut_ptr() }, outdir: cs(&out), distance: if c.cb { &mut d } else { std::ptr::null_mut() },
                    // has no meaning with a distance function of the caller
                    ptweight: if c.cb { 17. } else { job.opts.ptw },
                    jet_def: JetDef { algorithm: [0, 2, 1][job.opts.jalg as usize % 3], radius: job.opts.jr, min_pt: job.opts.jpt },
                    search: c.naive as i32, max_cell_size: job.max.unwrap_or(f64::INFINITY),
                };
                let rc = unsafe { cres_run(&o) };
                let (lvl, open) = (log::max_level() as usize, simrt::open_files());
                let msg = if rc != 0 {
                    let (r, b) = last_err(4000);
                    let n = b.iter().position(|c| *c == 0);
                    let s = n.map(|n| String::from_utf8_lossy(&b[..n]).into_owned());
                    if r != 0 { wrong.push(("message".into(), format!("retrieving the message into 4000 bytes returned {r}"))); }
                    match &s { Some(s) if !s.is_empty() => cur = Some(s.clone()), s => wrong.push(("message".into(), format!("message of a failed call is {s:?}"))) }
                    s
                } else { None };
                done.push(Done { rc, open, step: k, lvl, msg, panics: false });
            }
            Step::Get(len) => {
                let (r, b) = last_err(*len);
                let (want_rc, want): (i32, Vec<u8>) = match &cur {
                    None => (0, vec![]),
                    Some(m) => {
                        let m = m.as_bytes();
                        let mut v = m[..m.len().min(len.saturating_sub(1))].to_vec();
                        if *len > 0 { v.push(0); }
                        (if *len > m.len() { 0 } else { m.len() as i32 + 1 }, v)
                    }
                };
                if r != want_rc { wrong.push(("message".into(), format!("message of {:?} bytes into {len} bytes returned {r} instead of {want_rc}", cur.as_ref().map(|c| c.len())))); }
                else if b[..want.len()] != want[..] { wrong.push(("message".into(), format!("message into {len} bytes is {:?} instead of {:?}", String::from_utf8_lossy(&b[..*len]), String::from_utf8_lossy(&want)))); }
                if b[*len..].iter().any(|c| *c != 0xA5) { wrong.push(("out_of_bounds".into(), format!("written beyond a buffer of {len} bytes"))); }
            }
            Step::Print => { unsafe { cres_print_last_err() }; if let Some(m) = &cur { printed.push(m.clone()); } }
        }
    }
    (done, wrong, printed)
}
#[allow(static_mut_refs)]
fn calls(w: &W, tabs: &[Table], nans: &[Table]) -> Out {
    set_log(w.log);
    rayon::ThreadPoolBuilder::new().num_threads(w.threads).build_global().unwrap();
    let mut out = Out::default();
    if w.scripts.len() == 1 {
        let (d, x, y) = script(w, 0, tabs, nans);
        out.done.push(d); out.wrong = x; out.printed = y;
    } else {
        std::thread::scope(|s| {
            let h: Vec<_> = (0..w.scripts.len()).map(|t| s.spawn(move || script(w, t, tabs, nans))).collect();
            for h in h { let (d, x, y) = h.join().unwrap(); out.done.push(d); out.wrong.extend(x); out.printed.extend(y); }
        });
    }
    out.lvl = log::max_level() as usize;
    out.open = simrt::open_files();
    unsafe { out.seen = std::mem::take(&mut SEEN); out.ncb = NCB; }
    out
}

type Shown = Vec<Vec<(i32, Vec<[crate::recorder::F; 4]>)>>;
fn clustered(paths: &[String], o: &Opts) -> Result<Shown, String> {
    use cres::cluster::{JetAlgorithm, JetDefinition};
    let cl = DefaultClustering::new(JetDefinition { algorithm: [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen][o.jalg as usize % 3], radius: o.jr, min_pt: o.jpt });
    let conv = Converter::new();
    let mut v = vec![];
    for p in paths {
        for rec in FileReader::try_new(p.into()).map_err(|e| e.to_string())? {
            let e: Event = conv.try_convert(rec.map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            v.push(momenta(&cl.cluster(e).unwrap()));
        }
    }
    Ok(v)
}

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    if w.jobs.is_empty() || w.jobs.len() > 3 || w.scripts.is_empty() || w.scripts.len() > 4 || w.threads == 0 || w.threads > 8 { return Err("size".into()); }
    for j in &w.jobs { e2e::check_files(&j.files, false)?; if j.files.iter().all(|f| f.fmt == 3) || j.minw != 0. || !j.req.is_empty() || j.comp.is_some() || j.outdir != 0 || j.opts.lep.is_some() || j.opts.pho.is_some() || j.opts.nu || j.strat != 0 || j.threads < 2 || j.max.is_some_and(|m| !(m >= 0.)) { return Err("job".into()); } }
    { let mut n: Vec<&String> = w.jobs.iter().flat_map(|j| &j.files).map(|f| &f.name).collect(); n.sort(); if n.windows(2).any(|p| p[0] == p[1]) { return Err("names".into()); } }
    for s in w.scripts.iter().flatten() { match s { Step::Run(c) if c.job >= w.jobs.len() || c.bad > 11 || c.bad == 6 && !c.cb => return Err("call".into()), Step::Get(n) if *n > 2000 => return Err("buffer".into()), _ => {} } }
    let calls_of = |t: usize| w.scripts[t].iter().enumerate().filter_map(|(k, s)| match s { Step::Run(c) => Some((k, c.clone())), _ => None }).collect::<Vec<_>>();
    if (0..w.scripts.len()).all(|t| calls_of(t).is_empty()) { ex.trivial = true; return Ok(()); }
    let setup = || {
        fs::reset();
        let v: Vec<Setup> = w.jobs.iter().map(|j| { let (texts, raw) = put_files_of(j); Setup { texts, raw, args: vec![] } }).collect();
        fs::put(&abs("bad.hepmc"), b"HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\nE 1 -1 0 0 0 0 1 1 10001 10002 0 1 abc\nN 1 \"0\"\nU GEV MM\nHepMC::IO_GenEvent-END_EVENT_LISTING\n");
        fs::put(&abs("blocked"), b"a file");
        let good = |px: &str| format!("HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\nE 1 -1 0 0 0 0 1 1 10001 10002 0 1 1.5\nN 1 \"0\"\nU GEV MM\nV -1 0 0 0 0 0 0 1 0\nP 10001 11 {px} 40 0 50 0 1 0 0 0 0\nHepMC::IO_GenEvent-END_EVENT_LISTING\n");
        let cut = crate::files::compress(good("30").as_bytes(), 1);
        fs::put(&abs("cut.hepmc.gz"), &cut[..cut.len() - 9]);
        fs::put(&abs("undefined.hepmc"), good("nan").as_bytes());
        v
    };
    let setups = setup();
    let xs: Vec<e2e::Expect> = w.jobs.iter().map(e2e::expect).collect();
    let xinf: Vec<e2e::Expect> = if w.inf { w.jobs.iter().map(|j| e2e::expect_with(j, true)).collect() } else { vec![] };
    let quiet = Cfg { seed: 1, ..Default::default() };
    // what the distance function has to see
    let mut tabs = vec![];
    let mut nans = vec![];
    for (j, x) in w.jobs.iter().zip(if w.inf { &xinf } else { &xs }) {
        let paths: Vec<String> = j.files.iter().filter(|f| f.fmt != 3).map(|f| abs(&inpath(f))).collect();
        let p = ex.phase("reference", &quiet, &[], || clustered(&paths, &j.opts));
        let ev: Vec<Vec<(i32, Vec<[f64; 4]>)>> = match p.result { Some(Ok(v)) => v.into_iter().map(|e| e.into_iter().map(|(i, m)| (i, m.into_iter().map(|q| q.map(|x| x.0)).collect())).collect()).collect(), Some(Err(e)) => { ex.viol("C06", "unreadable", e); return Ok(()) } None => { ex.viol("C06", "unreadable", e2e::why(&p)); return Ok(()) } };
        if ev.len() != x.ev.len() { ex.viol("C06", "missing_records", format!("{} of {} records read", ev.len(), x.ev.len())); return Ok(()); }
        let ws: Vec<Vec<f64>> = x.ev.iter().map(|e| match &e.res { Some(r) => vec![e.w[0], r[0]], None => vec![] }).collect();
        for nan in [false, true] { let t = Table { tau: j.opts.ptw, nan, inf: w.inf, ev: ev.clone(), w: if nan { vec![vec![]; ev.len()] } else { ws.clone() }, magic: 0x5eed_5eed }; if nan { nans.push(t) } else { tabs.push(t) } }
    }
    // --- without faults, and with
    let mut nops = 0;
    for round in 0..if w.faults.is_empty() { 1 } else { 2 } {
        setup();
        let mut faults: Vec<Fault> = vec![];
        if round == 1 { for (at, kind, param) in &w.faults { faults.push(Fault { op: (*at.min(&999) * nops as u64 / 1000) as u32, kind: *kind, param: *param }); } faults.sort_by_key(|f| f.op); faults.dedup_by_key(|f| f.op); }
        let p = ex.phase(if round == 0 { "calls" } else { "calls_with_faults" }, cfg, &faults, || calls(&w, &tabs, &nans));
        nops = p.nfsops;
        let hard: u64 = (0..fk::MAX).filter(|k| faults.iter().any(|f| f.kind == *k as u32) && !is_benign(*k as u32)).map(|k| p.fired[k]).sum();
        let out = match p.outcome {
            Outcome::Returned => p.result.unwrap(),
            Outcome::Deadlock => { ex.viol("C05", "deadlock", format!("calls of the C interface: {}", p.note)); ex.viol("C14", "hang", p.note); return Ok(()); }
            Outcome::StepLimit | Outcome::CpuLimit => { ex.viol("C05", "no_progress", format!("calls of the C interface: {}", p.note)); ex.viol("C14", "hang", p.note); return Ok(()); }
            Outcome::Harness => return Ok(()),
            _ => { let m = e2e::why(&p); ex.viol("C14", "not_contained", format!("a call did not return: {m}")); ex.viol("C15", "crash", m.clone()); return Ok(()); }
        };
        for (c, m) in &out.wrong { ex.viol("C14", c, m.clone()); }
        // every message asked for has been printed
        for m in &out.printed {
            let (want, got) = (out.printed.iter().filter(|x| *x == m).count(), p.stderr.matches(m.as_str()).count());
            // the message of a panic in another thread may end up in the middle of it
            let mut rest = m.chars().peekable();
            for c in p.stderr.chars() { if rest.peek() == Some(&c) { rest.next(); } }
            if got < want && w.scripts.len() > 1 && rest.peek().is_none() && out.done.iter().flatten().any(|d| d.rc == -1) { ex.probe("printed_during_panic"); continue; }
            if p.stderr.len() + 4000 < simrt::MAX_STDERR && got < want { ex.viol("C14", "print", format!("message {m:?} was printed {got} times instead of {want}")); break; }
        }
        for (c, m) in &out.seen { ex.viol("C15", c, m.clone()); }
        let mut failed = 0;
        let mut failures: Vec<(usize, usize, Call, Option<String>)> = vec![];
        for (t, done) in out.done.iter().enumerate() {
            let cs = calls_of(t);
            if cs.len() != done.len() { ex.harness.push("calls".into()); return Ok(()); }
            for ((k, c), d) in cs.iter().zip(done) {
                if ex.verbose { eprintln!("bad {} rc {} msg {:?}", c.bad, d.rc, d.msg); }
                let what = format!("call {k} of thread {t} (job {}, kind {}, {})", c.job, c.bad, if c.cb { "own distance" } else { "built-in distance" });
                if w.scripts.len() == 1 && d.lvl != w.log { ex.viol("C18", "log_level", format!("log level {} before and {} after {what}, which {}", w.log, d.lvl, if d.rc == 0 { "succeeded" } else { "failed" })); }
                if w.scripts.len() == 1 && d.open > 0 { ex.viol("C14", "files_left_open", format!("{} files are still open after {what}, which {}", d.open, if d.rc == 0 { "succeeded" } else { "failed" })); }
                if c.bad != 0 && d.rc != 0 && round == 0 { failures.push((t, *k, c.clone(), d.msg.clone())); }
                if c.bad == 6 { ex.probe("distance_not_a_number"); continue; }
                // nothing to do: success or not
                if c.bad == 7 { ex.probe("no_inputs"); continue; }
                if c.bad != 0 {
                    if d.rc == 0 { ex.viol("C14", "failure_not_reported", format!("{what} returned 0")); }
                    else if hard == 0 && c.bad == 1 && d.msg.as_ref().is_some_and(|m| m.contains("nowhere") && !m.contains(&format!("nowhere{t}_{k}."))) { ex.viol("C14", "message", format!("{what}: message {:?} concerns another file than nowhere{t}_{k}.hepmc", d.msg)); }
                    if c.bad == 4 && d.rc == -1 { ex.probe("panic_contained"); }
                    continue;
                }
                if d.rc != 0 { failed += 1; if hard == 0 { ex.viol("C14", "healthy_call_fails", format!("{what} returned {} {:?}", d.rc, d.msg)); } continue; }
                // as if it had been written to the usual place
                let j = &w.jobs[c.job];
                let mut lost = None;
                for f in j.files.iter().filter(|f| f.fmt != 3) {
                    let from = format!("{}/{}", outname(t, *k), f.name);
                    match fs::read(&abs(&from)) { Some(d) => fs::put(&abs(&outpath(j, f)), &d), None => lost = Some(from) }
                }
                if let Some(l) = lost { ex.viol("C14", "success_without_output", format!("{what} returned 0 without writing {l}")); continue; }
                for b in e2e::check_outputs(j, &setups[c.job], if w.inf && c.cb { &xinf[c.job] } else { &xs[c.job] }, ex) {
                    ex.viol("C14", "wrong_output", format!("{what}: {} {}", b.class, b.msg));
                    if c.cb { ex.viol("C15", "result", format!("{what}: {} {}", b.class, b.msg)); }
                    ex.viol("C18", "result", format!("{what}: {} {}", b.class, b.msg));
                }
                for f in j.files.iter().filter(|f| f.fmt != 3) { if let Some(i) = fs::find(&abs(&outpath(j, f))) { fs::remove(i); } }
            }
        }
        // the message is that of this failure: the same call has the same message if nothing failed before
        let mut alone = 0;
        for (i, (t, k, c, msg)) in failures.iter().enumerate() {
            if prop != "C14" || c.bad == 6 || alone == 2 || !failures[..i].iter().any(|f| f.0 == *t && f.3 != *msg || f.0 == *t && f.2.bad != c.bad) { continue; }
            alone += 1;
            setup();
            let w1 = W { scripts: w.scripts.iter().enumerate().map(|(u, s)| if u == *t { s.iter().enumerate().map(|(l, s)| if l == *k { s.clone() } else { Step::Get(0) }).collect() } else { vec![] }).collect(), ..w.clone() };
            let p = ex.phase("alone", &quiet, &[], || calls(&w1, &tabs, &nans));
            let Some(o) = p.result else { continue };
            let m = o.done[*t].first().and_then(|d| d.msg.clone());
            ex.probe("message_compared");
            if m != *msg { ex.viol("C14", "message", format!("the message of call {k} of thread {t} (kind {}) is {msg:?}; that of the same call alone is {m:?}", c.bad)); }
        }
        if failed > hard { ex.viol("C14", "healthy_call_fails", format!("{failed} healthy calls failed with {hard} faults")); }
        if out.lvl != w.log { ex.viol("C18", "log_level", format!("log level {} before and {} after all calls", w.log, out.lvl)); }
        if out.open > 0 { ex.viol("C14", "files_left_open", format!("{} files are still open after all calls", out.open)); }
        if out.ncb > 0 { ex.probe("distance_callbacks_used"); }
        if hard > 0 { ex.probe("hard_fault_during_calls"); }
        if prop == "C15" && out.ncb == 0 { ex.trivial = true; }
        for (f, (path, want)) in w.jobs.iter().zip(&setups).flat_map(|(j, s)| j.files.iter().map(|f| abs(&inpath(f))).zip(&s.raw)).enumerate() { if fs::read(&path).as_ref() != Some(want) { ex.viol("C09", "input_changed", format!("input {f} {path} changed")); } }
    }
    Ok(())
}
fn put_files_of(j: &e2e::W) -> (Vec<Text>, Vec<Vec<u8>>) { e2e::put_files(&j.files) }
