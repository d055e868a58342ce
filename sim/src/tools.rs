//! cres-partition and cres-classify on the simulated disk: C12, C13 and the
//! disk faults of C05, C07, C08, C09.
use crate::e2e::{self, damaged, eligible, gen_deco, inpath, is_benign, program, put_files, resolve, why, Damage, End, Prog, Sel};
use crate::ex::{self, Ex};
use crate::files::*;
use crate::rng::Rng;
use cres::cluster::DefaultClustering;
use cres::distance::EuclWithScaledPt;
use cres::event::Event;
use cres::io::{Converter, FileReader};
use cres::partition::VPTreePartition;
use cres::traits::{Clustering, Distance, TryConvert};
use noisy_float::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{fk, fs, Cfg, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub files: Vec<InFile>,
    pub opts: Opts,
    /// base-2 logarithm of the number of regions
    pub depth: u32,
    pub pcomp: Option<String>,
    pub ccomp: Option<String>,
    pub threads: usize,
    pub threads2: usize,
    pub log: String,
    pub cfg2: Cfg,
    /// 0 "out", 1 nested, 2 next to the inputs, 3 two inputs of the same name, 4 partition written over an input,
    /// 5 region file of one input is another input, 6 region file of one input is the partition,
    /// 7, 8 the partition, 9, 10 a region file is a symbolic link to, another name of an input
    pub place: u8,
    pub sel: Vec<Sel>,
    /// faults in the classification (else the partitioning)
    pub in_class: bool,
    pub damage: Option<Damage>,
    pub lost: Option<u64>,
    pub room: Option<u64>,
    pub stale: bool,
}
const FOOT: [&str; 3] = ["HepMC::IO_GenEvent-END_EVENT_LISTING", "</LesHouchesEvents>", "</Eventrecord>"];
fn abs(p: &str) -> String { e2e::abs(p) }

pub fn gen(prop: &str, r: &mut Rng, cfg: &mut Cfg) -> W {
    let depth = match r.below(10) { 0 => 0, 1..=3 => 1, 4..=7 => 2, 8 => 3, _ => 4 } as u32;
    let need = if depth == 0 { 1 } else { 3 * (1usize << (depth - 1)) - 1 };
    // negative-weight events in all files together, near what is needed
    let nneg = match r.below(10) { 0 => r.us(0, need), 1 | 2 => need.saturating_sub(1), 3 | 4 => need, 5 => 1 << depth, _ => need + r.us(0, 12) };
    let nfiles = r.us(1, 3);
    let mut files: Vec<InFile> = vec![];
    for k in 0..nfiles {
        let fmt = r.below(3) as u8;
        let nw = if fmt == 0 { *r.pick(&[1, 1, 3]) } else { 1 };
        let suf = *r.pick(&["", ".gz", ".x"]);
        let npos = match r.below(8) { 0 => 0, _ => r.us(0, 8) };
        files.push(e2e::gen_file(r, &format!("{}{k}.{}{suf}", ["a", "ev_", "Z9-"][k % 3], ["hepmc", "lhe", "xml"][fmt as usize]), fmt, npos, nw));
    }
    for _ in 0..nneg {
        let f = r.us(0, nfiles - 1);
        let nw = files[f].order.len();
        let at = r.us(0, files[f].ev.len());
        files[f].ev.insert(at, Ev { w: vec![-1.; nw], q: vec![], deco: gen_deco(r) });
    }
    let dup = r.chance(20);
    for f in &mut files {
        for e in &mut f.ev {
            let simple = r.chance(50);
            e.q = gen_parts(r, 0., simple);
            let neg = e.w[0] < 0.;
            for (i, w) in e.w.iter_mut().enumerate() { let m = 0.05 + r.f(); *w = if i == 0 { if neg { -m } else { m } } else { m * (r.f() * 3. - 1.) }; }
        }
    }
    if dup {
        // equal distances
        let all: Vec<Vec<Part>> = files.iter().flat_map(|f| f.ev.iter().map(|e| e.q.clone())).collect();
        for f in &mut files { for e in &mut f.ev { if r.chance(50) { e.q = r.pick(&all).clone(); } } }
    }
    if r.chance(if matches!(prop, "C07" | "C08" | "C13") { 10 } else { 3 }) { e2e::fatten_some(r, &mut files); }
    let mut w = W {
        files, opts: gen_opts(r), depth, pcomp: e2e::gen_comp(r), ccomp: e2e::gen_comp(r), threads: r.us(1, 4), threads2: r.us(1, 8),
        log: r.pick(&["Off", "error", "Warn", "Info", "info", "debug"]).to_string(), cfg2: ex::gen_cfg(r), place: r.below(3).min(1) as u8, sel: vec![], in_class: r.chance(60), damage: None, lost: None, room: None, stale: r.chance(20),
    };
    if r.chance(6) { w.log = r.pick(&e2e::LOG_SPECS).to_string(); }
    if r.chance(8) { w.log = "trace".into(); cfg.gap = cfg.gap.max(30); w.cfg2.gap = w.cfg2.gap.max(30); }
    cfg.tty = r.below(2) as u32;
    match prop {
        "C12" => { ex::gen_benign_io(r, cfg); ex::gen_benign_io(r, &mut w.cfg2); }
        "C07" | "C08" | "C09" | "C13" | "C05" | "C18" => {
            if prop != "C18" && r.chance(50) || prop == "C05" { ex::gen_benign_io(r, cfg); }
            // enough for the partition
            let k = if w.depth == 0 { 1 } else { 3 * (1usize << (w.depth - 1)) - 1 };
            let have = |w: &W| w.files.iter().flat_map(|f| &f.ev).filter(|e| e.w[0] < 0.).count();
            while have(&w) < k && r.chance(97) { let f = r.us(0, w.files.len() - 1); let nw = w.files[f].order.len(); let at = r.us(0, w.files[f].ev.len()); w.files[f].ev.insert(at, Ev { w: vec![-0.5; nw], q: gen_parts(r, 0., true), deco: gen_deco(r) }); }
            let wr: &[(u8, u32)] = &[(4, fk::ENOSPC_WRITE), (4, fk::EIO_WRITE), (4, fk::ENOSPC_ONCE), (4, fk::EIO_WRITE_STICKY), (6, fk::ENOSPC_WRITE), (6, fk::EIO_WRITE), (6, fk::ENOSPC_ONCE), (6, fk::EIO_WRITE_STICKY), (6, fk::SHORT_WRITE), (6, fk::EINTR_WRITE), (4, fk::SHORT_WRITE), (4, fk::EINTR_WRITE), (3, fk::OPEN_ERR), (5, fk::MKDIR_ERR), (3, fk::OPEN_EINTR)];
            let rd: &[(u8, u32)] = &[(2, fk::EIO_READ), (2, fk::EIO_READ), (2, fk::EIO_READ_STICKY), (8, fk::EIO_READ), (1, fk::OPEN_ERR), (2, fk::SHORT_READ), (2, fk::EINTR_READ), (1, fk::OPEN_EINTR), (1, fk::BAD_SECTOR), (7, fk::BAD_SECTOR), (9, fk::BAD_SECTOR)];
            let all: Vec<(u8, u32)> = wr.iter().chain(rd).copied().collect();
            let crash: &[(u8, u32)] = &[(0, fk::CRASH), (0, fk::CRASH), (4, fk::CRASH), (6, fk::CRASH), (3, fk::CRASH), (4, fk::ENOSPC_WRITE)];
            let set: &[(u8, u32)] = match prop { "C07" => wr, "C08" => rd, "C09" => crash, "C05" | "C18" => &[], _ => &all };
            if prop == "C18" { w.log = "info".into(); w.threads = 1; e2e::gen_log_faults(r, &mut w.sel); }
            if prop == "C08" && r.chance(50) { w.damage = Some(e2e::gen_damage(r, &mut w.files)); if r.chance(10) { w.damage.as_mut().unwrap().kind = 4; w.in_class = true; w.pcomp = Some(r.pick(&["gzip", "bzip2", "zstd"]).to_string()); } }
            else if !set.is_empty() && !(prop == "C13" && r.chance(40)) {
                for _ in 0..r.us(1, 4) {
                    let (class, kind) = *r.pick(set);
                    let param = if kind == fk::OPEN_ERR || kind == fk::MKDIR_ERR { *r.pick(&[13, 28, 24, 2, 30]) } else if kind == fk::CRASH { r.below(4000) as i64 } else if kind == fk::BAD_SECTOR { r.below(100000) as i64 } else { *r.pick(&[1, 2, 3, 7, 20, 64]) };
                    w.sel.push(Sel { at: r.below(1000), class, kind, param });
                }
            }
            if (prop == "C07" || prop == "C13") && r.chance(30) { w.room = Some(r.below(1000)); }
            if prop == "C09" && r.chance(50) { w.lost = Some(r.below(1001)); }
            if (prop == "C09" || prop == "C13") && r.chance(if prop == "C09" { 35 } else { 10 }) { w.place = r.us(2, 10) as u8; arrange(&mut w, r); }
        }
        _ => {}
    }
    w
}
/// make paths collide as `place` says
fn arrange(w: &mut W, r: &mut Rng) {
    match w.place {
        3 => {
            w.files[0].dir = "".into();
            let mut f = w.files[0].clone();
            f.dir = "in".into();
            let at = r.us(0, w.files.len());
            w.files.insert(at, f);
        }
        5 => {
            let k = r.below(1 << w.depth);
            let mut f = w.files[0].clone();
            w.files[0].dir = "in".into();
            f.dir = "in".into();
            f.name = region_name(&w.files[0].name, k as usize);
            let at = r.us(0, w.files.len());
            w.files.insert(at, f);
        }
        _ => {}
    }
}
fn region_name(name: &str, i: usize) -> String { let (p, s) = name.split_once('.').unwrap_or((name, "")); format!("{p}.{i}.{s}") }
fn outdir(w: &W) -> &'static str { match w.place { 1 => "res/deep/er", 2 | 5 => "in", 6 => ".", _ => "out" } }
fn partfile(w: &W) -> String { match w.place { 4 => inpath(&w.files[0]), 6 => region_name(&w.files[0].name, 0), _ => "part.yml".into() } }
fn outpath(w: &W, f: &InFile, i: usize) -> String { format!("{}/{}", outdir(w), region_name(&f.name, i)) }
fn need(depth: u32) -> usize { if depth == 0 { 1 } else { 3 * (1usize << (depth - 1)) - 1 } }

fn pargs(w: &W, threads: usize) -> Vec<String> {
    let mut a = vec!["cres-partition".to_string(), "-o".into(), partfile(w), "--regions".into(), (1u32 << w.depth).to_string(), "-t".into(), threads.to_string(), "-l".into(), e2e::log_arg(&w.log)];
    opt_args(&w.opts, &mut a);
    if let Some(c) = &w.pcomp { a.extend(["--compression".into(), c.clone()]); }
    a.extend(w.files.iter().map(inpath));
    a
}
fn cargs(w: &W) -> Vec<String> {
    let mut a = vec!["cres-classify".to_string(), "-p".into(), partfile(w), "-o".into(), outdir(w).into(), "-l".into(), e2e::log_arg(&w.log)];
    if let Some(c) = &w.ccomp { a.extend(["-c".into(), c.clone()]); }
    a.extend(w.files.iter().map(inpath));
    a
}
struct Setup { texts: Vec<Text>, raw: Vec<Vec<u8>> }
fn setup(w: &W, part: Option<&[u8]>) -> Setup {
    fs::reset();
    let (texts, raw) = put_files(&w.files);
    if w.place == 2 || w.place == 5 { fs::mkdir(&abs("in")); }
    let alias = |p: String, hard: bool| { let t = abs(&inpath(&w.files[w.files.len() / 2])); if hard { fs::hardlink(&p, &t) } else { fs::dirlink(&p, &t) } };
    if let Some(p) = part { fs::put(&abs(&partfile(w)), p); } else if w.place == 7 || w.place == 8 { alias(abs(&partfile(w)), w.place == 8) }
    if w.place == 9 || w.place == 10 { fs::mkdir(&abs("out")); alias(abs(&outpath(w, w.files.last().unwrap(), w.files.len() % (1 << w.depth))), w.place == 10) }
    if w.stale && w.place < 2 {
        if part.is_none() { fs::put(&abs(&partfile(w)), &[b'#'; 5000]); }
        let mut d = String::new();
        for p in outdir(w).split('/') { d += "/"; d += p; fs::mkdir(&format!("/simfs/cwd{d}")); }
        for f in &w.files { for i in 0..1 << w.depth { fs::put(&abs(&outpath(w, f, i)), &[b'#'; 3000]); } }
    }
    Setup { texts, raw }
}
fn intact(w: &W, s: &Setup, part: Option<&[u8]>) -> Option<String> {
    for (f, d) in w.files.iter().zip(&s.raw) {
        match fs::read(&abs(&inpath(f))) { Some(x) if x == *d => {}, Some(x) => return Some(format!("input {} changed ({} bytes, now {})", inpath(f), d.len(), x.len())), None => return Some(format!("input {} is gone", inpath(f))) }
    }
    if let Some(p) = part { if fs::read(&abs(&partfile(w))).as_deref() != Some(p) { return Some("the partition file changed".into()); } }
    None
}
fn outs(w: &W) -> Vec<Option<Vec<u8>>> { w.files.iter().flat_map(|f| (0..1usize << w.depth).map(move |i| (f, i))).map(|(f, i)| fs::read(&abs(&outpath(w, f, i)))).collect() }

/// vantage points and radii as written
fn tree(yaml: &[u8]) -> Result<Vec<(Vec<(i32, [f64; 3])>, f64)>, String> {
    let v: serde_yaml::Value = serde_yaml::from_slice(yaml).map_err(|e| format!("not valid YAML: {e}"))?;
    let vp = v.get(1).and_then(|x| x.get("vp")).and_then(|x| x.as_sequence()).ok_or("no tree")?;
    let mut t = vec![];
    for n in vp {
        let r = n.get("r").and_then(|x| x.as_f64()).ok_or("no radius")?;
        let out = n.get("pt").and_then(|x| x.get("outgoing_by_pid")).and_then(|x| x.as_sequence()).ok_or("no particles")?;
        let mut o = vec![];
        for s in out {
            let id = s.get(0).and_then(|x| x.as_i64()).ok_or("no id")?;
            for p in s.get(1).and_then(|x| x.as_sequence()).ok_or("no momenta")? {
                let c = |k: usize| p.get("p").and_then(|x| x.get(k)).and_then(|x| x.as_f64()).ok_or("no momentum");
                o.push((id as i32, [c(1)?, c(2)?, c(3)?]));
            }
        }
        t.push((o, r));
    }
    Ok(t)
}
/// region of every record by the library's distances, and all regions compatible with the reference distance
fn library_regions(paths: &[String], yaml: &[u8], ptw: f64) -> Result<Vec<Vec<usize>>, String> {
    let (cl, part): (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>) = serde_yaml::from_slice(yaml).map_err(|e| e.to_string())?;
    let tree = part.into_tree();
    let dist = EuclWithScaledPt::new(n64(ptw));
    let conv = Converter::new();
    let mut all = vec![];
    for p in paths {
        let mut v = vec![];
        for rec in FileReader::try_new(p.into()).map_err(|e| e.to_string())? {
            let e: Event = conv.try_convert(rec.map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let e = cl.cluster(e).unwrap();
            let mut i = 0;
            while i < tree.len() { i = if dist.distance(&tree[i].pt, &e) <= tree[i].r { 2 * i + 1 } else { 2 * i + 2 }; }
            v.push(i - tree.len());
        }
        all.push(v);
    }
    Ok(all)
}
fn admissible(t: &[(Vec<(i32, [f64; 3])>, f64)], o: &[(i32, [f64; 3])], ptw: f64) -> Vec<usize> {
    let mut open = vec![0usize];
    let mut done = vec![];
    while let Some(i) = open.pop() {
        if i >= t.len() { done.push(i - t.len()); continue; }
        let d = crate::refdist::distance(&t[i].0, o, ptw);
        let tol = 1e-9 * (d.abs() + t[i].1.abs() + 1.);
        if d <= t[i].1 + tol { open.push(2 * i + 1); }
        if d > t[i].1 - tol { open.push(2 * i + 2); }
    }
    done
}
/// every tag closed, in order
fn balanced(d: &[u8]) -> Result<(), String> {
    let s = String::from_utf8_lossy(d);
    let mut st: Vec<&str> = vec![];
    let mut at = 0;
    while let Some(p) = s[at..].find('<') {
        let b = at + p;
        if s[b..].starts_with("<!--") { at = b + s[b..].find("-->").ok_or("open comment")? + 3; continue; }
        let e = b + s[b..].find('>').ok_or("open tag")?;
        let tag = &s[b + 1..e];
        at = e + 1;
        if tag.starts_with('?') || tag.ends_with('/') { continue; }
        let name = tag.trim_start_matches('/').split_whitespace().next().unwrap_or("");
        if tag.starts_with('/') { if st.pop() != Some(name) { return Err(format!("unexpected </{name}>")); } } else { st.push(name); }
    }
    if let Some(n) = st.last() { return Err(format!("<{n}> is never closed")); }
    Ok(())
}
/// one region file: header, these records in order, footer
fn check_region(f: &InFile, t: &Text, d: &[u8], recs: &[usize]) -> Result<(), (&'static str, String)> {
    // the last record may carry the end of the file
    let foot = FOOT[f.fmt as usize];
    let mut head = t.header.clone();
    if t.recs.is_empty() && f.fmt == 2 { while head.last().is_some_and(|c| c.is_ascii_whitespace()) { head.pop(); } }
    if !d.starts_with(&head) { return Err(("header", format!("header differs: {}", diff(&head, d)))); }
    let mut at = head.len();
    for k in recs {
        let mut raw = vec![];
        push_rec(&mut raw, &t.recs[*k]);
        if at >= d.len() { return Err(("missing_records", format!("ends before record {k}"))); }
        if !d[at..].starts_with(&raw) { return Err(("record", format!("at record {k}: {}", diff(&raw, &d[at..])))); }
        at += raw.len();
    }
    let rest = String::from_utf8_lossy(&d[at..]).into_owned();
    let mut r = rest.trim();
    if f.fmt == 2 { while let Some(x) = r.strip_prefix("</e>") { r = x.trim_start(); } }
    if r != foot { return Err((if r.is_empty() { "truncated" } else { "footer" }, format!("after the last record: {:?}", rest.chars().take(200).collect::<String>()))); }
    if f.fmt == 2 { balanced(d).map_err(|e| ("not_well_formed", e))?; }
    Ok(())
}
fn check_outputs(w: &W, s: &Setup, regs: &[Vec<usize>]) -> Option<(&'static str, String)> {
    let kind = w.ccomp.as_deref().map_or(0, comp_kind);
    for (fi, f) in w.files.iter().enumerate() {
        for i in 0..1usize << w.depth {
            let p = outpath(w, f, i);
            let Some(d) = fs::read(&abs(&p)) else { return Some(("missing_file", format!("{p} was not written"))) };
            let d = match decompress(&d, kind) { Ok(d) => d, Err(e) => return Some(("undecodable", format!("{p}: {e}"))) };
            let recs: Vec<usize> = (0..f.ev.len()).filter(|k| regs[fi][*k] == i).collect();
            if let Err((c, m)) = check_region(f, &s.texts[fi], &d, &recs) { return Some((c, format!("{p} ({} records of {}): {m}", recs.len(), f.ev.len()))); }
        }
    }
    None
}
fn stray(w: &W) -> Vec<String> {
    let mut ok: Vec<String> = w.files.iter().map(|f| abs(&inpath(f))).collect();
    ok.push(abs(&partfile(w)));
    for f in &w.files { for i in 0..1usize << w.depth { ok.push(abs(&outpath(w, f, i))); } }
    fs::list().into_iter().map(|x| x.0).filter(|p| !ok.contains(p)).collect()
}

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    let nev: usize = w.files.iter().map(|f| f.ev.len()).sum();
    if nev > 100 || w.depth > 5 || w.files.is_empty() || w.place > 10 || w.threads == 0 || w.threads > 8 || w.threads2 == 0 || w.threads2 > 8 { return Err("size".into()); }
    if w.files.iter().any(|f| f.fmt > 2) { return Err("format".into()); }
    for c in [&w.pcomp, &w.ccomp] { if c.as_ref().is_some_and(|c| comp_kind(c) == 0) { return Err("compression".into()); } }
    e2e::check_files(&w.files, w.place == 3)?;
    if (w.place == 3) != { let mut n: Vec<&String> = w.files.iter().map(|f| &f.name).collect(); n.sort(); n.windows(2).any(|p| p[0] == p[1]) } { return Err("names".into()); }
    let nneg = w.files.iter().flat_map(|f| &f.ev).filter(|e| e.w[0] < 0.).count();
    ex.trivial = nneg < 2;
    if w.damage.is_some() { return with_damage(&w, cfg, ex); }
    let enough = nneg >= need(w.depth);
    if prop == "C18" {
        if w.place > 1 || w.damage.is_some() { return Err("place".into()); }
        let w2 = W { log: "debug".into(), ..w.clone() };
        let nodes = || -> Vec<i32> { w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect() };
        if !w.in_class { return e2e::same_log(&|_| { setup(&w, None); Ok(()) }, &nodes, [&pargs(&w, 1), &pargs(&w2, 1)], &w.sel, cfg, &|| Prog::Partition, ex); }
        setup(&w, None);
        let (end, _) = program(ex, "partition", &Cfg { seed: 1, ..Default::default() }, &[], &pargs(&w, 1), Prog::Partition);
        let (End::Ok, Some(part)) = (end, fs::read(&abs(&partfile(&w)))) else { ex.probe("partition_refused"); return Ok(()) };
        return e2e::same_log(&|_| { setup(&w, Some(&part)); Ok(()) }, &nodes, [&cargs(&w), &cargs(&w2)], &w.sel, cfg, &|| Prog::Classify, ex);
    }
    let s = setup(&w, None);
    let (end, p) = program(ex, "partition", cfg, &[], &pargs(&w, w.threads), Prog::Partition);
    if end == End::Hang { return Ok(()); }
    if matches!(w.place, 4 | 7 | 8) {
        if let Some(m) = intact(&w, &s, None) { ex.viol("C09", "input_overwritten", format!("{m} when the partition is written over it (end {end:?})")); }
        return Ok(());
    }
    if end == End::Fail {
        if enough { ex.viol("C12", "refused", format!("{} regions from {nneg} negative-weight events: {}", 1 << w.depth, why(&p))); }
        else if !matches!(p.outcome, Outcome::Returned | Outcome::Exit(_)) { ex.viol("C12", "crash_instead_of_refusal", format!("{} regions from {nneg} negative-weight events: {}", 1 << w.depth, why(&p))); }
        ex.probe("partition_refused");
        return Ok(());
    }
    let pops = p.fsops.clone();
    let pnodes: Vec<i32> = w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect();
    if let Some(m) = intact(&w, &s, None) { ex.viol("C09", "input_changed", m); return Ok(()); }
    let Some(part) = fs::read(&abs(&partfile(&w))) else { ex.viol("C12", "no_partition", "success without a partition file".into()); return Ok(()) };
    let pkind = w.pcomp.as_deref().map_or(0, comp_kind);
    let yaml = match decompress(&part, pkind) { Ok(y) => y, Err(e) => { ex.viol("C12", "undecodable", format!("partition file: {e}")); return Ok(()) } };
    let t = match tree(&yaml) { Ok(t) => t, Err(e) => { ex.viol("C12", "unreadable", format!("partition file: {e}")); return Ok(()) } };
    if t.len() + 1 != 1 << w.depth { ex.viol("C12", "regions", format!("{} regions instead of {}", t.len() + 1, 1 << w.depth)); return Ok(()); }
    if !enough && w.depth > 0 { ex.viol("C12", "unsupported", format!("{} regions from {nneg} negative-weight events", 1 << w.depth)); return Ok(()); }
    let objs: Vec<Vec<Vec<(i32, [f64; 3])>>> = w.files.iter().map(|f| f.ev.iter().map(|e| objects(e, &w.opts)).collect()).collect();
    for (i, (o, _)) in t.iter().enumerate() {
        let near = w.files.iter().zip(&objs).flat_map(|(f, ob)| f.ev.iter().zip(ob)).any(|(e, x)| e.w[0] < 0. && x.len() == o.len() && crate::refdist::distance(x, o, w.opts.ptw) < 1e-6 * (1. + o.iter().map(|q| q.1.iter().map(|c| c.abs()).sum::<f64>()).sum::<f64>()));
        if !near { ex.viol("C12", "vantage_point", format!("vantage point {i} is none of the negative-weight events")); return Ok(()); }
    }
    // --- other thread counts and schedules
    if prop == "C12" {
        setup(&w, None);
        let (end, p) = program(ex, "partition2", &w.cfg2, &[], &pargs(&w, w.threads2), Prog::Partition);
        if end == End::Fail { ex.viol("C12", "depends_on_threads", format!("{} threads: success, {} threads: {}", w.threads, w.threads2, why(&p))); }
        if end == End::Ok {
            let again = fs::read(&abs(&partfile(&w))).and_then(|d| decompress(&d, pkind).ok());
            if again.as_deref() != Some(&yaml[..]) { ex.viol("C12", "depends_on_threads", format!("partitions written with {} and {} threads differ", w.threads, w.threads2)); }
        }
        return Ok(());
    }
    if !w.in_class && !w.sel.is_empty() || !w.in_class && w.room.is_some() {
        return faults(prop, &w, cfg, ex, false, None, &pops, &pnodes, &[Some(part.clone())], &[]);
    }
    // --- classification
    let s = setup(&w, Some(&part));
    let paths: Vec<String> = w.files.iter().map(|f| abs(&inpath(f))).collect();
    let quiet = Cfg { seed: 1, ..Default::default() };
    let p = ex.phase("reference", &quiet, &[], || library_regions(&paths, &yaml, w.opts.ptw));
    let regs = match p.result { Some(Ok(r)) => r, Some(Err(e)) => { ex.viol("C13", "unreadable_partition", e); return Ok(()) } None => { ex.viol("C13", "unreadable_partition", why(&p)); return Ok(()) } };
    for (fi, f) in w.files.iter().enumerate() {
        if regs[fi].len() != f.ev.len() { ex.viol("C06", "missing_records", format!("{}: {} of {} records read", f.name, regs[fi].len(), f.ev.len())); return Ok(()); }
        for k in 0..f.ev.len() {
            let a = admissible(&t, &objs[fi][k], w.opts.ptw);
            if !a.contains(&regs[fi][k]) { ex.viol("C13", "region", format!("{} record {k}: the distances of the partition give region {}, the reference distance one of {a:?}", f.name, regs[fi][k])); return Ok(()); }
        }
    }
    let (end, p) = program(ex, "classify", cfg, &[], &cargs(&w), Prog::Classify);
    if end == End::Hang { return Ok(()); }
    if let Some(m) = intact(&w, &s, Some(&part)) { ex.viol("C09", "input_overwritten", format!("{m} (classification, end {end:?})")); ex.viol("C13", "input_overwritten", m); return Ok(()); }
    if w.place == 3 {
        if end == End::Ok { ex.viol("C13", "clash_accepted", "region files of two inputs have the same name, but success was reported".into()); ex.viol("C09", "clash_accepted", "region files of two inputs have the same name, but success was reported".into()); }
        return Ok(());
    }
    if w.place >= 5 { if end == End::Ok { if let Some((c, m)) = check_outputs(&w, &s, &regs) { ex.viol("C13", c, m); } } else { ex.probe("clash_refused"); } return Ok(()); }
    if end != End::Ok { ex.viol("C13", "failed", format!("classification of healthy files failed: {}", why(&p))); return Ok(()); }
    if let Some((c, m)) = check_outputs(&w, &s, &regs) { ex.viol("C13", c, m); return Ok(()); }
    for l in stray(&w) { ex.viol("C13", "stray_file", format!("the run left behind {l}")); }
    // region files can be read back
    let regpaths: Vec<String> = w.files.iter().flat_map(|f| (0..1usize << w.depth).map(move |i| (f, i))).map(|(f, i)| abs(&outpath(&w, f, i))).collect();
    let q = ex.phase("read_back", &quiet, &[], || read_counts(&regpaths));
    match q.result {
        Some(Ok(n)) => for (k, n) in n.iter().enumerate() {
            let (fi, i) = (k >> w.depth, k & ((1 << w.depth) - 1));
            let want = regs[fi].iter().filter(|r| **r == i).count();
            if *n != want { ex.viol("C13", "read_back", format!("{}: {n} records read back, {want} written", regpaths[k])); break; }
        },
        Some(Err(e)) => ex.viol("C13", "read_back", e),
        None => ex.viol("C13", "read_back", why(&q)),
    }
    let ops = p.fsops.clone();
    let mut nodes: Vec<i32> = w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect();
    nodes.push(fs::find(&abs(&partfile(&w))).map_or(-2, |i| i as i32));
    let good = outs(&w);
    if w.in_class { return faults(prop, &w, cfg, ex, true, Some(&part), &ops, &nodes, &good, &regs); }
    Ok(())
}
fn read_counts(paths: &[String]) -> Result<Vec<usize>, String> {
    let conv = Converter::new();
    let mut v = vec![];
    for p in paths {
        let mut n = 0;
        for rec in FileReader::try_new(p.into()).map_err(|e| format!("{p}: {e}"))? {
            let _: Event = conv.try_convert(rec.map_err(|e| format!("{p}: {e}"))?).map_err(|e| format!("{p}: {e}"))?;
            n += 1;
        }
        v.push(n);
    }
    Ok(v)
}

#[allow(clippy::too_many_arguments)]
fn faults(prop: &str, w: &W, cfg: &Cfg, ex: &mut Ex, class: bool, part: Option<&[u8]>, ops: &[simrt::FsOp], nodes: &[i32], good: &[Option<Vec<u8>>], _regs: &[Vec<usize>]) -> Result<(), String> {
    let args = if class { cargs(w) } else { pargs(w, w.threads) };
    let name = if class { "classification" } else { "partitioning" };
    let prog = || if class { Prog::Classify } else { Prog::Partition };
    let now = || if class { outs(w) } else { vec![fs::read(&abs(&partfile(w)))] };
    let own = if class { "C13" } else { "C07" };
    for (n, sel) in w.sel.iter().enumerate() {
        if eligible(sel.class, ops, nodes).is_empty() { ex.probe("no_operation_for_fault"); continue; }
        let mut f = resolve(sel, ops, nodes).unwrap();
        let target = ops[f.op as usize];
        let s = setup(w, part);
        if f.kind == fk::BAD_SECTOR {
            let Some(k) = nodes.iter().position(|i| *i == target.inode) else { continue };
            f.param = match w.files.get(k) { Some(g) => e2e::bad_sector(g, &s.texts[k], &s.raw[k], sel.param as u64), None => sel.param as u64 % (part.map_or(0, |p| p.len()) as u64 + 1) } as i64;
        }
        let (end, p) = program(ex, &format!("fault{n}"), cfg, &[f], &args, prog());
        if end == End::Hang { return Ok(()); }
        let fired = p.fired[f.kind as usize] > 0 || p.fired[fk::TORN_CRASH as usize] > 0;
        if !fired { if is_benign(f.kind) { ex.probe("benign_fault_without_effect"); } else if ex.replay.is_none() { ex.harness.push(format!("fault {f:?} did not fire, target {target:?}")); } continue; }
        let reading = matches!(f.kind, fk::EIO_READ | fk::EIO_READ_STICKY | fk::SHORT_READ | fk::EINTR_READ | fk::BAD_SECTOR) || (f.kind == fk::OPEN_ERR || f.kind == fk::OPEN_EINTR) && target.arg & 3 == 0;
        let id = if reading { "C08" } else { "C07" };
        let what = format!("{} at operation {} of the {name}", fk::NAMES[f.kind as usize], f.op);
        match end {
            End::Ok if now() != good => { for id in [id, own] { ex.viol(id, if reading { "changed_by_read_fault" } else { "lost_output" }, format!("success reported despite {what}, but the output is not that of a fault-free run")); } }
            End::Fail if is_benign(f.kind) => { for id in [id, own] { ex.viol(id, "benign_fails", format!("failure because of {what}: {}", why(&p))); } }
            _ => {}
        }
        if let Some(m) = intact(w, &s, part) { ex.viol("C09", "input_changed", format!("{m} ({what})")); continue; }
        if prop == "C09" && (end == End::Crash || f.kind == fk::ENOSPC_WRITE) {
            if let (End::Crash, Some(l)) = (end, w.lost) { e2e::lose(nodes, l, ex); }
            let (end, p) = program(ex, &format!("rerun{n}"), cfg, &[], &args, prog());
            if end == End::Hang { return Ok(()); }
            if end != End::Ok { ex.viol("C09", "rerun_failed", format!("after {what}, the rerun failed: {}", why(&p))); }
            else if now() != good { ex.viol("C09", "rerun_differs", format!("after {what}, the rerun wrote different outputs")); }
        }
    }
    if let Some(room) = w.room {
        setup(w, part);
        let used: u64 = fs::list().iter().map(|(_, d)| d.len() as u64).sum();
        let want: u64 = good.iter().flatten().map(|d| d.len() as u64).sum();
        let mut c = *cfg;
        c.capacity = used + want * room.min(1000) / 1000;
        let (end, _) = program(ex, "small_disk", &c, &[], &args, prog());
        if end == End::Ok && now() != good { for id in ["C07", own] { ex.viol(id, "lost_output", format!("{name} reported success with {} bytes of space for {want} bytes of output", c.capacity - used)); } }
    }
    Ok(())
}

fn with_damage(w: &W, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let d = w.damage.as_ref().unwrap();
    // a partition from the healthy files
    setup(w, None);
    let (end, _) = program(ex, "partition", cfg, &[], &pargs(w, w.threads), Prog::Partition);
    if end != End::Ok { ex.trivial = true; return Ok(()); }
    let Some(part) = fs::read(&abs(&partfile(w))) else { return Ok(()) };
    let good = if w.in_class {
        let (end, _) = program(ex, "classify", cfg, &[], &cargs(w), Prog::Classify);
        if end != End::Ok { ex.trivial = true; return Ok(()); }
        outs(w)
    } else { vec![Some(part.clone())] };
    let s = setup(w, if w.in_class { Some(&part) } else { None });
    if d.kind == 4 {
        // the partition is cut off
        let c = w.pcomp.as_deref().map_or(0, comp_kind);
        if !w.in_class || c == 0 || c == 4 || part.len() < 10 { ex.trivial = true; return Ok(()); }
        let n = 8 + d.at as usize % (part.len() - 8);
        fs::put(&abs(&partfile(w)), &part[..n]);
        let (end, _) = program(ex, "damaged", cfg, &[], &cargs(w), Prog::Classify);
        if end == End::Ok { if outs(w) != good { ex.viol("C08", "truncated_accepted", format!("classification reported success although the compressed partition ends after {n} of {} bytes", part.len())); } else { ex.probe("truncation_without_effect"); } }
        return Ok(());
    }
    let Some((data, k, what)) = damaged(&w.files, &[], &s.texts, &s.raw, d) else { ex.trivial = true; return Ok(()) };
    fs::put(&abs(&inpath(&w.files[k])), &data);
    let (end, _) = program(ex, "damaged", cfg, &[], &if w.in_class { cargs(w) } else { pargs(w, w.threads) }, if w.in_class { Prog::Classify } else { Prog::Partition });
    if end == End::Ok {
        let same = if w.in_class { outs(w) == good } else { fs::read(&abs(&partfile(w))) == good[0] };
        let class = match d.kind % 4 { 0 if w.files[k].comp == 4 => "lz4_truncated_accepted", 0 => "truncated_accepted", 2 => "cut_record_accepted", _ => "malformed_accepted" };
        if d.kind % 4 != 0 || !same { ex.viol("C08", class, format!("{} reported success although {what}", if w.in_class { "classification" } else { "partitioning" })); } else { ex.probe("truncation_without_effect"); }
    }
    Ok(())
}
