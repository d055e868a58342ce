//! The complete programs on the simulated disk: C06 to C13, C18 and C05.
use crate::ex::{self, Ex};
use crate::files::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{fk, fs, op, Cfg, Fault, FsOp, Outcome, Phase};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sel {
    /// position among the eligible operations, in thousandths
    pub at: u64,
    /// which operations are eligible: 0 all, 1 opens of inputs, 2 reads of inputs, 3 opens for writing,
    /// 4 writes, 5 mkdir, 6 last writes of every output, 7 opens in the second pass, 8 reads in the second pass
    pub class: u8,
    pub kind: u32,
    pub param: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub files: Vec<InFile>,
    pub opts: Opts,
    /// requested additional weights (indices of names)
    pub req: Vec<usize>,
    pub max: Option<f64>,
    pub minw: f64,
    pub useed: Option<u64>,
    pub strat: u8,
    pub naive: bool,
    pub threads: usize,
    /// compression option of the outputs
    pub comp: Option<String>,
    pub log: String,
    pub argfile: bool,
    /// leftovers in the output directory
    pub stale: Vec<u64>,
    /// where outputs go: 0 "out", 1 nested, 2 the directory of the inputs (compressed names kept)
    pub outdir: u8,
    pub sel: Vec<Sel>,
    /// static damage to an input
    pub damage: Option<Damage>,
    /// second configuration (C11)
    pub cfg2: Option<Cfg>,
    pub log2: String,
    /// drop data not yet synced at a crash: thousandths kept
    pub lost: Option<u64>,
    /// limit on the disk, thousandths of what the outputs need
    pub room: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage { pub kind: u8, pub file: usize, pub at: u64 }

pub const COMPS: [&str; 14] = ["gzip", "bzip2", "zstd", "lz4", "gzip_1", "gzip_9", "zstd_1", "zstd_19", "lz4_0", "lz4_16", "gzip_6", "zstd_3", "lz4_9", "gz_2"];

pub fn gen_comp(r: &mut Rng) -> Option<String> {
    if r.chance(40) { return None; }
    let k = r.below(10);
    // high compression levels are slow
    Some(match k { 0 | 1 => "gzip", 2 | 3 => "bzip2", 4 | 5 => "zstd", 6 | 7 => "lz4", 8 => *r.pick(&["gzip_1", "zstd_1", "lz4_0", "gzip_0", "zstd_9"]), _ => *r.pick(&["gzip_9", "zstd_19", "lz4_9", "lz4_16"]) }.into())
}
pub fn gen_file(r: &mut Rng, name: &str, fmt: u8, nev: usize, nw: usize) -> InFile {
    let deco = r.next() as u32;
    let mut order: Vec<usize> = (0..nw).collect();
    // the first entry is the central weight, whatever its name
    if r.chance(30) { r.shuffle(&mut order[1..]); }
    InFile { name: name.into(), dir: if r.chance(60) { String::new() } else { "in".into() }, fmt, comp: if r.chance(50) { 0 } else { r.range(1, 4) as u8 },
        ev: (0..nev).map(|_| Ev { w: vec![0.; nw], q: vec![], deco: gen_deco(r) }).collect(),
        deco: deco & if deco >> 20 & 3 == 0 { 255 } else { 31 }, mev: fmt == 0 && r.chance(20), order, chan: r.below(2) as u8, xs: if r.chance(15) { -r.f() * 10. } else { 0.5 + r.f() * 1000. }, members: if r.chance(20) { r.us(2, 3) as u8 } else { 1 } }
}
pub fn jitter(q: &[Part], r: &mut Rng) -> Vec<Part> {
    q.iter().map(|p| { let mut p = p.clone(); for x in &mut p.p { *x *= 1. + 0.02 * (r.f() - 0.5); } p }).collect()
}
/// particles that do not take part in clustering, so that a record is longer than any buffer
pub fn fatten(r: &mut Rng, e: &mut Ev) {
    let n = *r.pick(&[30, 60, 90, 180, 360]);
    let mag = *r.pick(&[1., 50., 1e-3]);
    for _ in 0..n {
        let q = Part { id: *r.pick(&[1, 21, -5, 23, 2212]), p: [(r.f() - 0.5) * mag, (r.f() - 0.5) * mag, (r.f() - 0.5) * mag], m: 0., out: false };
        let at = if r.chance(70) { 0 } else { r.us(0, e.q.len()) };
        e.q.insert(at, q);
    }
}
fn gen_log(r: &mut Rng) -> String { (if r.chance(8) { *r.pick(&LOG_SPECS) } else { *r.pick(&["Off", "error", "Warn", "Info", "info", "Info", "debug", "trace"]) }).to_string() }
pub fn fatten_some(r: &mut Rng, files: &mut [InFile]) {
    for _ in 0..r.us(1, 3) {
        let f = r.us(0, files.len() - 1);
        if !files[f].ev.is_empty() { let k = r.us(0, files[f].ev.len() - 1); if files[f].ev[k].q.len() < 30 { fatten(r, &mut files[f].ev[k]); } }
    }
}
pub fn gen_damage(r: &mut Rng, files: &mut [InFile]) -> Damage {
    let d = Damage { kind: *r.pick(&[0, 0, 1, 2, 3]), file: r.us(0, files.len() - 1), at: r.below(100000) };
    if d.kind == 0 {
        let f = &mut files[d.file];
        f.members = 1;
        if f.comp == 0 || f.comp == 4 && r.chance(90) { f.comp = *r.pick(&[1, 1, 2, 3]); }
    }
    d
}
/// looks of an event record; blanks and an extra weight are rarer
pub fn gen_deco(r: &mut Rng) -> u32 { r.next() as u32 & (0x1fff | if r.chance(25) { 0x1fc000 } else { 0 }) }
const EXT: [&str; 4] = ["hepmc", "lhe", "xml", "norm.xml"];

pub fn gen(prop: &str, r: &mut Rng, cfg: &mut Cfg) -> W {
    let mw = cfg!(feature = "multiweight");
    let mut threads = match r.below(10) { 0..=3 => 1, 4..=8 => r.us(2, 5), _ => r.us(6, 8) };
    if prop == "C11" || prop == "C10" && r.chance(60) { threads = 1; }
    if prop == "C05" { threads = r.us(1, 8); }
    if prop == "C18" { threads = 1; }
    let nfiles = match r.below(10) { 0..=3 => 1, 4..=7 => 2, _ => 3 };
    let small = matches!(prop, "C07" | "C08" | "C09");
    // weights with names: HepMC2 only
    let many = r.chance(8);
    let nreq = if mw && r.chance(30) { if many { r.us(9, 39) } else if r.chance(80) { r.us(1, 3) } else { 5 } } else { 0 };
    let mut ids: Vec<usize> = (0..if many { NAMES.len() } else { NNAMES }).collect();
    let nnames = if many { NAMES.len() } else if r.chance(40) { NNAMES } else { r.us(5, 7) };
    ids.truncate(nnames);
    r.shuffle(&mut ids);
    let mut req: Vec<usize> = ids[..nreq].to_vec();
    // the same name twice
    if nreq > 0 && r.chance(6) { let q = *r.pick(&req); let k = r.us(0, req.len()); req.insert(k, q); }
    let reordered = r.chance(25);
    let fmts: Vec<u8> = (0..nfiles).map(|_| if nreq > 0 { 0 } else { *r.pick(&[0, 0, 1, 1, 2, 2]) }).collect();
    let mut files = vec![];
    // more records than any queue between threads can be expected to hold
    let long = !small && r.chance(if prop == "C05" { 20 } else { 3 });
    for (k, fmt) in fmts.iter().enumerate() {
        let nw = if *fmt != 0 { 1 } else if nreq > 0 { nnames } else { *r.pick(&[1, 1, 2, 4, 12]) };
        let nev = match r.below(12) { 0 => 0, 1 => 1, 2..=8 => r.us(2, if small { 6 } else { 10 }), _ if r.chance(10) => r.us(26, 40), _ => r.us(8, if small { 12 } else { 25 }) };
        let nev = if long { if k == 0 { r.us(40, 90) } else { nev.min(10) } } else { nev };
        let suf = *r.pick(&["", "", ".gz", ".zst", ".x"]);
        let mut f = gen_file(r, &format!("{}{k}.{}{suf}", ["a", "ev_", "Z9-"][k % 3], EXT[*fmt as usize]), *fmt, nev, nw);
        if nreq > 0 { for e in &mut f.ev { e.deco |= 32; if reordered && r.chance(50) { e.deco |= 8192; } } }
        files.push(f);
    }
    if fmts.contains(&2) {
        // normalisation of the channels, anywhere in the list
        for c in 0..2u8 {
            if files.iter().any(|f| f.fmt == 2 && f.chan == c) {
                let mut f = gen_file(r, &format!("n{c}.norm.xml"), 3, 0, 1);
                f.chan = c;
                let at = r.us(0, files.len());
                files.insert(at, f);
            }
        }
    }
    let grouped = r.chance(if threads > 1 { 70 } else { 40 });
    let max = if grouped { Some(*r.pick(&[10., 25., 60.])) } else { *r.pick(&[None, None, Some(0.), Some(30.), Some(100.), Some(400.)]) };
    let ngrp = r.us(1, 5);
    let tmpl: Vec<Vec<Part>> = (0..ngrp).map(|_| gen_parts(r, 0., false)).collect();
    let negpct = if grouped { 0 } else { *r.pick(&[10, 30, 45]) };
    let mut members: BTreeMap<usize, Vec<(usize, usize)>> = Default::default();
    let wmag = *r.pick(&[1., 1., 1e-7, 3e5, 1e-18, 1e-25, 1e13]);
    let dyadic = r.chance(20);
    let dscale = *r.pick(&[1., 1., 2f64.powi(-60), 2f64.powi(45)]);
    for fi in 0..files.len() {
        for k in 0..files[fi].ev.len() {
            let g = r.us(0, ngrp - 1);
            let q = if grouped { jitter(&tmpl[g], r) } else { { let simple = r.chance(40); gen_parts(r, 0., simple) } };
            if grouped { members.entry(g).or_default().push((fi, k)); }
            let e = &mut files[fi].ev[k];
            e.q = q;
            for i in 0..e.w.len() {
                let m = if dyadic { (r.range(1, 64) as f64) / 16. * dscale } else { wmag * (0.05 + r.f()) };
                e.w[i] = if i == 0 { if r.chance(negpct) { -m } else { m } } else { m * (r.f() * 3. - 1.) };
            }
        }
    }
    for v in members.values() {
        let nneg = if threads == 1 { r.us(0, 3) } else { r.us(0, 1) };
        for _ in 0..nneg { let (f, k) = *r.pick(v); files[f].ev[k].w[0] = -files[f].ev[k].w[0].abs(); }
    }
    let unw = r.chance(if prop == "C10" { 100 } else { 25 });
    if files.iter().any(|f| f.fmt == 2) && unw && r.chance(60) { /* thresholds depend on the scale; below */ }
    if r.chance(if matches!(prop, "C06" | "C07" | "C08") { 14 } else { 4 }) { fatten_some(r, &mut files); }
    let mut w = W {
        files, opts: gen_opts(r), req, max, minw: 0., useed: if r.chance(50) { Some(r.below(1000)) } else { None }, strat: r.below(3) as u8, naive: r.chance(40), threads,
        comp: gen_comp(r), log: gen_log(r), argfile: r.chance(15),
        stale: if r.chance(25) { vec![r.below(2), r.below(20000)] } else { vec![] }, outdir: r.below(3).min(1) as u8, sel: vec![], damage: None, cfg2: None, log2: "Off".into(), lost: None, room: None,
    };
    if unw {
        let abs: Vec<f64> = (0..w.files.len()).flat_map(|i| { let s = scale_of(&w.files, i); w.files[i].ev.iter().map(move |e| (e.w[0] * s).abs()).collect::<Vec<_>>() }).collect();
        if !abs.is_empty() { w.minw = *r.pick(&abs) * *r.pick(&[0.3, 1., 2., 10.]); }
    }
    cfg.tty = r.below(2) as u32;
    match prop {
        "C06" | "C05" | "C10" => {
            ex::gen_benign_io(r, cfg);
            // also a failing run has to end
            if prop == "C05" && r.chance(if w.files[0].ev.len() > 30 { 70 } else { 15 }) { let mut d = gen_damage(r, &mut w.files); if r.chance(80) { d.kind = *r.pick(&[1, 1, 2]); d.file = 0; } w.damage = Some(d); }
        }
        "C07" => {
            if r.chance(40) { ex::gen_benign_io(r, cfg); }
            for _ in 0..r.us(2, 5) {
                let (class, kind) = *r.pick(&[(4, fk::ENOSPC_WRITE), (4, fk::EIO_WRITE), (4, fk::ENOSPC_ONCE), (4, fk::EIO_WRITE_STICKY), (6, fk::ENOSPC_WRITE), (6, fk::EIO_WRITE), (6, fk::ENOSPC_ONCE), (6, fk::EIO_WRITE_STICKY),
                    (6, fk::SHORT_WRITE), (6, fk::EINTR_WRITE), (4, fk::SHORT_WRITE), (4, fk::EINTR_WRITE), (3, fk::OPEN_ERR), (5, fk::MKDIR_ERR), (3, fk::OPEN_EINTR)]);
                let param = if kind == fk::OPEN_ERR || kind == fk::MKDIR_ERR { *r.pick(&[libc_errno::EACCES, libc_errno::ENOSPC, libc_errno::EMFILE, libc_errno::ENOENT, libc_errno::EROFS]) } else { r.range(1, 40) as i64 };
                w.sel.push(Sel { at: r.below(1000), class, kind, param });
            }
            if r.chance(40) { w.room = Some(r.below(1000)); }
        }
        "C08" => {
            if r.chance(40) { ex::gen_benign_io(r, cfg); }
            if r.chance(45) {
                w.damage = Some(gen_damage(r, &mut w.files));
                if r.chance(8) { w.damage.as_mut().unwrap().kind = 7; }
                else if cfg!(feature = "multiweight") && r.chance(6) { w.damage.as_mut().unwrap().kind = 8; }
                else if w.files.iter().any(|f| f.fmt == 3) && r.chance(15) {
                    let k = r.us(0, w.files.len() - 1);
                    if w.files[k].fmt == 3 { let one = w.files.iter().filter(|f| f.fmt == 3 && f.chan == w.files[k].chan).count() == 1; if one && r.chance(70) { w.files.remove(k); w.damage.as_mut().unwrap().kind = 5; } else { w.damage.as_mut().unwrap().kind = 6; } }
                }
            }
            else {
                for _ in 0..r.us(2, 5) {
                    let (class, kind) = *r.pick(&[(2, fk::EIO_READ), (2, fk::EIO_READ), (2, fk::EIO_READ_STICKY), (8, fk::EIO_READ), (8, fk::EIO_READ_STICKY), (1, fk::OPEN_ERR), (7, fk::OPEN_ERR), (2, fk::SHORT_READ), (2, fk::EINTR_READ), (8, fk::EINTR_READ),
                        (1, fk::OPEN_EINTR), (7, fk::TRUNC_FILE), (7, fk::TRUNC_FILE), (7, fk::TRUNC_FILE), (1, fk::BAD_SECTOR), (9, fk::BAD_SECTOR), (9, fk::BAD_SECTOR), (7, fk::BAD_SECTOR), (7, fk::BAD_SECTOR)]);
                    let param = if kind == fk::OPEN_ERR { *r.pick(&[libc_errno::EACCES, libc_errno::ENOENT, libc_errno::EMFILE, libc_errno::EIO]) } else if kind == fk::TRUNC_FILE { r.below(1000) as i64 } else if kind == fk::BAD_SECTOR { r.below(100000) as i64 } else { *r.pick(&[1, 2, 3, 7, 20, 64]) };
                    w.sel.push(Sel { at: r.below(1000), class, kind, param });
                }
            }
        }
        "C09" => {
            if r.chance(30) { ex::gen_benign_io(r, cfg); }
            for _ in 0..r.us(1, 4) { let class = *r.pick(&[0, 0, 4, 6, 3]); let kind = *r.pick(&[fk::CRASH, fk::CRASH, fk::CRASH, fk::ENOSPC_WRITE, fk::EIO_READ]); w.sel.push(Sel { at: r.below(1000), class: if kind == fk::ENOSPC_WRITE { 4 } else if kind == fk::EIO_READ { 2 } else { class }, kind, param: r.range(0, 4000) as i64 }); }
            if r.chance(50) { w.lost = Some(r.below(1001)); }
            if r.chance(25) {
                w.outdir = r.us(2, 7) as u8;
                if w.outdir > 5 { w.stale = vec![]; }
                if w.outdir == 3 {
                    // two inputs of the same name
                    w.stale = vec![];
                    let k = w.files.iter().position(|f| f.fmt != 3).unwrap_or(0);
                    w.files[k].dir = "".into();
                    let mut f = w.files[k].clone();
                    f.dir = "in".into();
                    let at = r.us(0, w.files.len());
                    w.files.insert(at, f);
                }
            }
        }
        "C18" => {
            w.log = "info".into();
            w.argfile = false;
            w.log2 = "debug".into();
            gen_log_faults(r, &mut w.sel);
        }
        "C11" => {
            ex::gen_benign_io(r, cfg);
            let mut c2 = ex::gen_cfg(r);
            ex::gen_benign_io(r, &mut c2);
            c2.time_base = r.next() >> 3; c2.tty = r.below(2) as u32;
            w.cfg2 = Some(c2);
            w.log2 = gen_log(r);
        }
        _ => {}
    }
    if w.log.ends_with("trace") || w.log2.ends_with("trace") { cfg.gap = cfg.gap.max(10); }
    w
}
pub mod libc_errno { pub const EACCES: i64 = 13; pub const ENOSPC: i64 = 28; pub const EMFILE: i64 = 24; pub const ENOENT: i64 = 2; pub const EROFS: i64 = 30; pub const EIO: i64 = 5; }

// ---------------------------------------------------------------- set up
pub fn inpath(f: &InFile) -> String { if f.dir.is_empty() { f.name.clone() } else { format!("{}/{}", f.dir, f.name) } }
pub fn abs(p: &str) -> String { format!("/simfs/cwd/{p}") }
pub fn outdir(w: &W) -> &'static str { match w.outdir { 0 | 3 | 6 | 7 => "out", 1 => "res/deep/er", 4 => "lnk", 5 => "./in/../in/.", _ => "in" } }
pub fn outpath(w: &W, f: &InFile) -> String { format!("{}/{}", match w.outdir { 4 | 5 => "in", _ => outdir(w) }, f.name) }

pub struct Setup { pub texts: Vec<Text>, pub raw: Vec<Vec<u8>>, pub args: Vec<String> }

pub fn check_files(files: &[InFile], clash: bool) -> Result<(), String> {
    let mut seen = std::collections::BTreeSet::new();
    for f in files {
        if f.name.is_empty() || f.fmt > 3 || f.name.contains('/') || f.comp > 4 || !(f.dir.is_empty() || f.dir == "in") { return Err("file".into()); }
        if !seen.insert((if clash { f.dir.clone() } else { String::new() }, f.name.clone())) { return Err("duplicate names".into()); }
        if f.fmt == 3 && !f.ev.is_empty() { return Err("normalisation with events".into()); }
        let nw = f.order.len();
        let mut o = f.order.clone(); o.sort();
        if nw == 0 || nw > NAMES.len() || o.windows(2).any(|p| p[0] == p[1]) || o.iter().any(|x| *x >= NAMES.len()) { return Err("order".into()); }
        for e in &f.ev {
            if e.w.len() != nw || (f.fmt != 0 && nw != 1) || e.w.iter().any(|x| !x.is_finite()) || !valid(e) { return Err("event".into()); }
        }
        if !f.xs.is_finite() || f.xs == 0. || f.xs == -1. { return Err("xs".into()); }
    }
    for c in 0..3 { if files.iter().filter(|f| f.fmt == 3 && f.chan % 3 == c).count() > 1 { return Err("two normalisations".into()); } }
    if files.iter().any(|f| f.chan > 1) { return Err("chan".into()); }
    Ok(())
}
/// events without normalisation
pub fn unscaled(files: &[InFile]) -> bool { files.iter().any(|f| f.fmt == 2 && !files.iter().any(|g| g.fmt == 3 && g.chan == f.chan)) }
pub fn put_files(files: &[InFile]) -> (Vec<Text>, Vec<Vec<u8>>) {
    let texts: Vec<Text> = files.iter().map(text).collect();
    let raw: Vec<Vec<u8>> = files.iter().zip(&texts).map(|(f, t)| compress_members(&t.raw(), f.comp, f.members)).collect();
    for (f, d) in files.iter().zip(&raw) { if !f.dir.is_empty() { fs::mkdir(&abs(&f.dir)); } fs::put(&abs(&inpath(f)), d); }
    (texts, raw)
}
pub fn setup(w: &W) -> Result<Setup, String> {
    check_files(&w.files, w.outdir == 3)?;
    if unscaled(&w.files) != w.damage.as_ref().is_some_and(|d| d.kind == 5) { return Err("normalisation".into()); }
    if w.files.is_empty() || w.threads == 0 || w.threads > 8 || w.outdir > 7 { return Err("opts".into()); }
    if !w.req.is_empty() && (!cfg!(feature = "multiweight") || w.files.iter().any(|f| f.fmt != 0)) { return Err("weights".into()); }
    if w.files.iter().any(|f| !w.req.is_empty() && f.order[0] != w.files[0].order[0]) { return Err("central".into()); }
    for f in &w.files { if !w.req.is_empty() && (w.req.iter().any(|q| !f.order.contains(q)) || f.ev.iter().any(|e| e.deco & 32 == 0)) { return Err("weights".into()); } }
    if w.max.is_some_and(|m| !(m >= 0.)) || !(w.minw >= 0.) { return Err("limits".into()); }
    if w.comp.as_ref().is_some_and(|c| comp_kind(c) == 0) { return Err("compression".into()); }
    fs::reset();
    let (texts, raw) = put_files(&w.files);
    if w.outdir >= 4 { fs::mkdir(&abs("in")); }
    // an output is another name of an input
    if w.outdir >= 6 {
        fs::mkdir(&abs("out"));
        let f: Vec<&InFile> = w.files.iter().filter(|f| f.fmt != 3).collect();
        let k = w.opts.jpt as usize + w.files.len();
        if let (Some(a), Some(b)) = (f.get(k % f.len().max(1)), f.last()) {
            let (p, t) = (abs(&outpath(w, a)), abs(&inpath(b)));
            if w.outdir == 6 { fs::dirlink(&p, &t) } else { fs::hardlink(&p, &t) }
        }
    }
    if w.outdir == 4 { fs::dirlink(&abs("lnk"), &abs("in")); }
    if w.stale.len() == 2 && w.outdir < 2 {
        let mut d = String::new();
        for p in outdir(w).split('/') { d += "/"; d += p; fs::mkdir(&format!("/simfs/cwd{d}")); }
        for f in w.files.iter().filter(|f| f.fmt != 3) {
            if w.stale[0] == 1 || f.comp == 0 { fs::put(&abs(&outpath(w, f)), &vec![b'#'; w.stale[1] as usize]); }
        }
    }
    let mut a: Vec<String> = vec![];
    opt_args(&w.opts, &mut a);
    a.extend(["-o".into(), outdir(w).into(), "--minweight".into(), w.minw.to_string(), "--strategy".into(), ["most_negative", "least_negative", "any"][w.strat as usize % 3].into(),
        "-s".into(), if w.naive { "naive" } else { "tree" }.into(), "-t".into(), w.threads.to_string(), "-l".into(), log_arg(&w.log)]);
    if let Some(m) = w.max { a.extend(["--max-cell-size".into(), m.to_string()]); }
    if let Some(s) = w.useed { a.extend(["--seed".into(), s.to_string()]); }
    if let Some(c) = &w.comp { a.extend(["--compression".into(), c.clone()]); }
    if !w.req.is_empty() { a.extend(["--weights".into(), w.req.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join(",")]); }
    for f in &w.files { a.push(inpath(f)); }
    if w.argfile {
        fs::put(&abs("args.txt"), (a.join("\n") + "\n").as_bytes());
        a = vec!["@args.txt".into()];
    }
    a.insert(0, "cres".into());
    Ok(Setup { texts, raw, args: a })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Ok, Fail, Crash, Hang }
static LOG_ENV: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
/// log level option; "env:X" stands for the option "error" with the environment variable set to X
pub fn log_arg(log: &str) -> String {
    let e = log.strip_prefix("env:");
    *LOG_ENV.lock().unwrap() = e.map(String::from);
    e.map_or(log, |_| "error").into()
}
pub const LOG_SPECS: [&str; 8] = ["env:debug", "env:info", "env:off", "env:info,cres=warn", "env:error,cres=trace", "env:warn,cres::io=info", "env:no such level,,=", "env:"];

pub enum Prog { Cres, Partition, Classify }

pub fn program(ex: &mut Ex, label: &str, cfg: &Cfg, faults: &[Fault], args: &[String], prog: Prog) -> (End, Phase<i32>) {
    let mut cfg = *cfg;
    if cfg.step_limit > 400_000_000 { cfg.step_limit = 400_000_000; }
    simrt::set_args(args);
    let log = LOG_ENV.lock().unwrap().clone();
    if log.is_some() { ex.probe("log_filter_from_environment"); }
    let p = ex.phase(label, &cfg, faults, move || { if let Some(l) = &log { unsafe { std::env::set_var("CRES_LOG", l) } } else { unsafe { std::env::remove_var("CRES_LOG") } } match prog { Prog::Cres => cli_cres::entry(), Prog::Partition => cli_partition::entry(), Prog::Classify => cli_classify::entry() } });
    if p.foreign_opens > 0 { ex.probe("foreign_opens"); }
    let end = match p.outcome {
        Outcome::Returned => if p.result == Some(0) { End::Ok } else { End::Fail },
        Outcome::Exit(0) => End::Ok,
        Outcome::Exit(_) => End::Fail,
        Outcome::Panic => { ex.probe("ended_by_panic"); End::Fail }
        Outcome::Abort | Outcome::Signal(_) => { ex.probe("ended_by_abort"); End::Fail }
        Outcome::Crash => End::Crash,
        Outcome::Deadlock => { ex.viol("C05", "deadlock", format!("{label}: {}", p.note)); End::Hang }
        Outcome::StepLimit | Outcome::CpuLimit => { ex.viol("C05", "no_progress", format!("{label}: {}", p.note)); End::Hang }
        Outcome::Harness => End::Hang,
    };
    (end, p)
}
pub fn why<R>(p: &Phase<R>) -> String {
    let s: String = p.stderr.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
    format!("{:?} {} {}", p.outcome, p.panic.clone().unwrap_or_default(), s)
}

// ---------------------------------------------------------------- reference
pub struct Expect {
    /// per file, per record: requested channels (scaled), None: only sums are known
    pub ev: Vec<EvX>,
    pub exact: bool,
    pub nisl: usize,
}
pub struct EvX { pub file: usize, pub rec: usize, pub w: Vec<f64>, pub obj: bool, pub isl: usize, pub res: Option<Vec<f64>>, pub touched: bool }

fn channels(w: &W, f: &InFile, e: &Ev, scale: f64) -> Vec<f64> {
    let mut v = vec![e.w[0] * scale];
    for q in &w.req { v.push(e.w[order_of(f, e).iter().position(|o| o == q).unwrap()] * scale); }
    v
}
pub fn expect(w: &W) -> Expect { expect_with(w, false) }
/// `inf`: events with an odd difference of their numbers are infinitely far from each other
pub fn expect_with(w: &W, inf: bool) -> Expect {
    let mut ev: Vec<EvX> = vec![];
    let mut objs = vec![];
    for (fi, f) in w.files.iter().enumerate() {
        let s = scale_of(&w.files, fi);
        for (k, e) in f.ev.iter().enumerate() {
            let o = objects(e, &w.opts);
            ev.push(EvX { file: fi, rec: k, w: channels(w, f, e, s), obj: !o.is_empty(), isl: usize::MAX, res: None, touched: false });
            objs.push(o);
        }
    }
    let live: Vec<usize> = (0..ev.len()).filter(|i| ev[*i].obj).collect();
    let n = live.len();
    let maxd = w.max.unwrap_or(if inf { f64::INFINITY } else { f64::MAX });
    let mut d = vec![vec![0.; n]; n];
    for a in 0..n { for b in 0..a { let x = if inf && (live[a] + live[b]) % 2 == 1 { f64::INFINITY } else { crate::refdist::distance(&objs[live[a]], &objs[live[b]], w.opts.ptw) }; d[a][b] = x; d[b][a] = x; } }
    // events that cannot influence each other
    let mut isl: Vec<usize> = (0..n).collect();
    fn root(v: &mut Vec<usize>, i: usize) -> usize { if v[i] == i { i } else { let r = root(v, v[i]); v[i] = r; r } }
    let tol = 1e-9 * (1. + if maxd < 1e300 { maxd } else { 0. });
    for a in 0..n { for b in 0..a { if d[a][b] <= maxd + tol { let (x, y) = (root(&mut isl, a), root(&mut isl, b)); isl[x] = y; } } }
    let mut exact_all = true;
    let roots: Vec<usize> = (0..n).map(|i| root(&mut isl, i)).collect();
    let mut nisl = 0;
    for r in 0..n {
        let m: Vec<usize> = (0..n).filter(|i| roots[*i] == r).collect();
        if m.is_empty() { continue; }
        for i in &m { ev[live[*i]].isl = nisl; }
        nisl += 1;
        let (res, touched) = island(w, &m, &|i| &ev[live[i]].w, &d, maxd, tol);
        if res.is_none() { exact_all = false; }
        for (k, i) in m.iter().enumerate() { let e = &mut ev[live[*i]]; e.touched = res.is_none() || touched[k]; e.res = res.as_ref().map(|v| v[k].clone()); }
    }
    Expect { ev, exact: exact_all, nisl }
}
/// the sequential algorithm on events that only interact among themselves
fn island<'a>(w: &W, m: &[usize], wt: &dyn Fn(usize) -> &'a Vec<f64>, d: &[Vec<f64>], maxd: f64, tol: f64) -> (Option<Vec<Vec<f64>>>, Vec<bool>) {
    let mut cur: Vec<Vec<f64>> = m.iter().map(|i| wt(*i).clone()).collect();
    let mut touched = vec![false; m.len()];
    let scale: f64 = cur.iter().map(|v| v[0].abs()).sum();
    let eps = 1e-11 * scale;
    let mut seeds: Vec<usize> = (0..m.len()).filter(|k| cur[*k][0] < 0.).collect();
    if seeds.len() > 1 && w.threads > 1 { return (None, touched); }
    let key = |k: &usize| match w.strat { 0 => cur[*k][0], 1 => -cur[*k][0], _ => m[*k] as f64 };
    seeds.sort_by(|a, b| key(a).partial_cmp(&key(b)).unwrap());
    if seeds.windows(2).any(|p| (key(&p[1]) - key(&p[0])).abs() <= eps && w.strat < 2) { return (None, touched); }
    for s in seeds {
        if cur[s][0].abs() <= eps { return (None, touched); }
        if cur[s][0] >= 0. { continue; }
        let mut nb: Vec<usize> = (0..m.len()).filter(|k| *k != s).collect();
        let ds = |k: &usize| d[m[s]][m[*k]];
        nb.sort_by(|a, b| ds(a).partial_cmp(&ds(b)).unwrap());
        if nb.iter().any(|k| (ds(k) - maxd).abs() <= tol) { return (None, touched); }
        nb.retain(|k| ds(k) <= maxd);
        let mut cell = vec![s];
        let mut sum = cur[s][0];
        for (i, k) in nb.iter().enumerate() {
            if sum.abs() <= eps { return (None, touched); }
            if sum >= 0. { break; }
            if i + 1 < nb.len() && ds(k).is_infinite() { return (None, touched); }
            if i + 1 < nb.len() && (ds(&nb[i + 1]) - ds(k)).abs() <= 1e-8 * (1. + ds(k)) { return (None, touched); }
            cell.push(*k);
            sum += cur[*k][0];
        }
        for c in 0..cur[0].len() {
            let mean = cell.iter().map(|k| cur[*k][c]).sum::<f64>() / cell.len() as f64;
            for k in &cell { cur[*k][c] = mean; touched[*k] = true; }
        }
    }
    (Some(cur), touched)
}
/// the unweighting rules; None if too close to call
fn unweighted(w: &W, x: &Expect) -> Option<Vec<Vec<f64>>> {
    use rand::distr::{Distribution, Uniform};
    use rand::SeedableRng;
    let mut rng = rand_xoshiro::Xoshiro256Plus::seed_from_u64(w.useed.unwrap_or(0));
    let dist = Uniform::try_from(0.0..w.minw).unwrap();
    let mut out: Vec<Vec<f64>> = vec![];
    let (mut a, mut b) = (0., 0.);
    let scale: f64 = x.ev.iter().map(|e| e.w[0].abs()).sum();
    for e in &x.ev {
        if !e.obj { out.push(e.w.clone()); continue; }
        let r = e.res.clone()?;
        a += r[0];
        let m = r[0].abs();
        if (m - w.minw).abs() < 1e-9 * w.minw { return None; }
        if m > w.minw { b += r[0]; out.push(r); continue; }
        let u = dist.sample(&mut rng);
        if (u - m).abs() < 1e-9 * w.minw { return None; }
        if u < m { let f = w.minw / m; b += r[0] * f; out.push(r.iter().map(|x| x * f).collect()); } else { out.push(r.iter().map(|_| 0.).collect()); }
    }
    if b.abs() < 1e-6 * scale { return None; }
    for (e, o) in x.ev.iter().zip(&mut out) { if e.obj { for v in o { *v *= a / b; } } }
    Some(out)
}

#[derive(Debug)]
pub struct Bad { pub class: &'static str, pub msg: String, /// this concerns unweighting only
    pub unw: bool }
fn bad(class: &'static str, msg: String) -> Vec<Bad> { vec![Bad { class, msg, unw: false }] }

/// Are the outputs what a fault-free run has to write?
pub fn check_outputs(w: &W, s: &Setup, x: &Expect, ex: &mut Ex) -> Vec<Bad> {
    let kind = w.comp.as_deref().map_or(0, comp_kind);
    let mut got: Vec<Vec<Vec<Option<f64>>>> = vec![];
    for (fi, f) in w.files.iter().enumerate() {
        if f.fmt == 3 {
            got.push(vec![]);
            continue;
        }
        let p = abs(&outpath(w, f));
        let Some(d) = fs::read(&p) else { return bad("missing", format!("{} does not exist", outpath(w, f))) };
        let d = match decompress(&d, kind) { Ok(d) => d, Err(e) => return bad("undecodable", format!("{} cannot be decoded completely: {e}", outpath(w, f))) };
        let nw: Vec<usize> = f.ev.iter().map(|e| e.w.len()).collect();
        match read_output(&s.texts[fi], &nw, &d) { Ok(v) => got.push(v), Err((c, m)) => return bad(c, format!("{}: {m}", outpath(w, f))) }
    }
    let sc: Vec<f64> = (0..w.files.len()).map(|i| scale_of(&w.files, i)).collect();
    let nch = 1 + w.req.len();
    let scale: Vec<f64> = (0..nch).map(|c| x.ev.iter().map(|e| e.w[c].abs()).sum()).collect();
    // no common factor can restore the sum if the weights of the kept events cancel exactly
    if w.minw > 0. {
        let c: Vec<f64> = x.ev.iter().filter(|e| e.obj).filter_map(|e| got[e.file][e.rec][0].map(|v| v * sc[e.file])).collect();
        if ex.verbose { eprintln!("central weights {c:?}"); }
        let all = |ok: fn(f64) -> bool| c.iter().all(|v| ok(*v) || *v == 0.) && c.iter().any(|v| ok(*v));
        if c.contains(&f64::INFINITY) && c.contains(&f64::NEG_INFINITY) && all(f64::is_infinite) {
            ex.probe("kept_weights_cancel");
            return vec![];
        }
    }
    let mut out: Vec<Vec<f64>> = vec![];
    for e in &x.ev {
        let f = &w.files[e.file];
        let g = &got[e.file][e.rec];
        let mut updated = vec![0];
        let order = order_of(f, &f.ev[e.rec]);
        for q in &w.req { updated.push(order.iter().position(|o| o == q).unwrap()); }
        for (i, v) in g.iter().enumerate() {
            let want = f.ev[e.rec].w[i];
            if let Some(v) = v {
                if !v.is_finite() { return bad("nonfinite", format!("{} record {}: weight {i} is {v}", f.name, e.rec)); }
                let same = if f.fmt == 2 { (v - want).abs() <= 1e-12 * want.abs() } else { *v == want };
                if !same && !updated.contains(&i) { return bad("unrequested_weight", format!("{} record {}: weight {i} ({}) was not requested but changed from {want:e} to {v:e}", f.name, e.rec, NAMES[order[i]])); }
                if !same && !e.obj { return bad("ignored_event_weight", format!("{} record {} has no identified particles but its weight {i} changed from {want:e} to {v:e}", f.name, e.rec)); }
                if !same && w.minw == 0. && !e.touched { return bad("untouched_weight", format!("{} record {}: no cell can reach this event, but weight {i} changed from {want:e} to {v:e}", f.name, e.rec)); }
            }
        }
        out.push(updated.iter().map(|i| g[*i].unwrap_or(f.ev[e.rec].w[*i]) * sc[e.file]).collect());
    }
    if !cfg!(feature = "multiweight") { /* further weights are plain text there and were compared above */ }
    let mut v = vec![];
    let close = |a: f64, b: f64, s: f64| (a - b).abs() <= 1e-9 * s;
    if w.minw == 0. {
        for (e, o) in x.ev.iter().zip(&out) {
            let Some(r) = &e.res else { continue };
            for c in 0..nch { if !close(o[c], r[c], scale[c]) { v.push(Bad { class: "wrong_weight", unw: false, msg: format!("{} record {} channel {c}: weight is {:e}, expected {:e} (before resampling {:e})", w.files[e.file].name, e.rec, o[c], r[c], e.w[c]) }); return v; } }
        }
        if x.exact { ex.probe("all_weights_predicted"); } else { ex.probe("only_sums_predicted_somewhere"); }
        for i in 0..x.nisl { for c in 0..nch {
            let a: f64 = x.ev.iter().filter(|e| e.isl == i).map(|e| e.w[c]).sum();
            let b: f64 = x.ev.iter().zip(&out).filter(|(e, _)| e.isl == i).map(|(_, o)| o[c]).sum();
            if !close(a, b, scale[c]) { v.push(Bad { class: "wrong_sum", unw: false, msg: format!("channel {c}: events that can only exchange weight among themselves had sum {a:e}, have {b:e}") }); return v; }
        } }
        return v;
    }
    // with unweighting
    let ub = |class, msg| vec![Bad { class, msg, unw: true }];
    if w.threads == 1 {
        if let Some(u) = unweighted(w, x) {
            ex.probe("unweighting_predicted");
            for ((e, o), r) in x.ev.iter().zip(&out).zip(&u) {
                for c in 0..nch {
                    // the common factor can be large
                    let s = scale[c].max(u.iter().map(|v| v[c].abs()).sum());
                    if !close(o[c], r[c], s) { return ub("unweight", format!("{} record {} channel {c}: weight is {:e}, expected {:e} (after resampling {:e})", w.files[e.file].name, e.rec, o[c], r[c], e.res.as_ref().unwrap()[c])); }
                }
            }
            return v;
        }
    }
    // any order of random draws
    let live: Vec<usize> = (0..x.ev.len()).filter(|i| x.ev[*i].obj).collect();
    let kept: Vec<usize> = live.iter().copied().filter(|i| out[*i][0] != 0.).collect();
    let a: f64 = live.iter().map(|i| x.ev[*i].w[0]).sum();
    let b: f64 = live.iter().map(|i| out[*i][0]).sum();
    let s = scale[0].max(live.iter().map(|i| out[*i][0].abs()).sum());
    if !kept.is_empty() && kept.iter().map(|i| out[*i][0]).sum::<f64>().abs() > 1e-6 * s && !close(a, b, s) { return ub("unweight_sum", format!("sum of weights was {a:e}, is {b:e} after unweighting")); }
    if x.exact && !kept.is_empty() {
        ex.probe("unweighting_rules_checked");
        let base = |i: usize| { let r = x.ev[i].res.as_ref().unwrap()[0]; if r.abs() > w.minw { r } else { r.signum() * w.minw } };
        let f = out[kept[0]][0] / base(kept[0]);
        for i in &live {
            let e = &x.ev[*i];
            let r = e.res.as_ref().unwrap();
            let name = || format!("{} record {}", w.files[e.file].name, e.rec);
            let zero = out[*i][0] == 0.;
            if zero && r[0].abs() > w.minw * (1. + 1e-9) && f != 0. { return ub("unweight_discard", format!("{}: weight {:e} is above the threshold {:e} but was discarded", name(), r[0], w.minw)); }
            if !zero && (r[0].abs() < 1e-9 * scale[0]) { continue; }
            let k = if zero { 0. } else { f * base(*i) / r[0] };
            for c in 0..nch { let want = r[c] * k; if (out[*i][c] - want).abs() > 1e-6 * want.abs() + 1e-9 * scale[c] * k.abs().max(1.) { return ub("unweight_rule", format!("{} channel {c}: weight is {:e}, keep/promote/discard with common factor {f} gives {want:e}", name(), out[*i][c])); } }
        }
    }
    v
}

pub fn inputs_intact(w: &W, s: &Setup) -> Option<String> {
    for (f, d) in w.files.iter().zip(&s.raw) {
        match fs::read(&abs(&inpath(f))) { Some(x) if x == *d => {}, Some(x) => return Some(format!("input {} changed ({} bytes, now {})", inpath(f), d.len(), x.len())), None => return Some(format!("input {} is gone", inpath(f))) }
    }
    None
}

// ---------------------------------------------------------------- faults
/// operations a selector may hit
pub fn eligible(class: u8, ops: &[FsOp], inputs: &[i32]) -> Vec<usize> {
    let w = |o: &FsOp| o.kind == op::OPEN && o.arg & 3 != 0;
    let inp = |o: &FsOp| inputs.contains(&o.inode);
    // second pass over an input: everything from its last open
    let last_open: BTreeMap<i32, usize> = ops.iter().enumerate().filter(|(_, o)| o.kind == op::OPEN && inp(o)).map(|(i, o)| (o.inode, i)).collect();
    let second = |i: usize, o: &FsOp| last_open.get(&o.inode).is_some_and(|l| i >= *l);
    let mut v: Vec<usize> = ops.iter().enumerate().filter(|&(i, o)| match class {
        1 => o.kind == op::OPEN && inp(o),
        2 => o.kind == op::READ && inp(o),
        3 => w(o),
        4 => o.kind == op::WRITE && !inp(o) && o.inode >= 0,
        5 => o.kind == op::MKDIR,
        7 => o.kind == op::OPEN && inp(o) && second(i, o),
        8 => o.kind == op::READ && inp(o) && second(i, o),
        // the open before the last one: first pass over an input
        9 => o.kind == op::OPEN && inp(o) && ops[i + 1..].iter().filter(|p| p.kind == op::OPEN && p.inode == o.inode).count() == 1,
        6 => false,
        _ => true,
    }).map(|x| x.0).collect();
    if class == 6 {
        let mut by: BTreeMap<i32, Vec<usize>> = Default::default();
        for (i, o) in ops.iter().enumerate() { if o.kind == op::WRITE && o.inode >= 0 && !inp(o) { by.entry(o.inode).or_default().push(i); } }
        for l in by.values() { v.extend(l.iter().rev().take(2)); }
        v.sort();
    }
    v
}
pub fn resolve(s: &Sel, ops: &[FsOp], inputs: &[i32]) -> Option<Fault> {
    let e = eligible(s.class, ops, inputs);
    if e.is_empty() { return None; }
    let i = e[(s.at.min(999) as usize * e.len()) / 1000];
    Some(Fault { op: i as u32, kind: s.kind, param: s.param })
}
pub fn is_benign(k: u32) -> bool { matches!(k, fk::SHORT_READ | fk::EINTR_READ | fk::SHORT_WRITE | fk::EINTR_WRITE | fk::OPEN_EINTR) }

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    let nev: usize = w.files.iter().map(|f| f.ev.len()).sum();
    if nev > 120 { return Err("size".into()); }
    if w.outdir >= 2 || w.damage.is_some() { return special(prop, &w, cfg, ex); }
    if prop == "C18" {
        if w.threads != 1 { return Err("threads".into()); }
        let w2 = W { log: w.log2.clone(), ..w.clone() };
        let (a, b) = (setup(&w)?.args, setup(&w2)?.args);
        let nodes = || -> Vec<i32> { w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect() };
        return same_log(&|k| { setup(if k == 0 { &w } else { &w2 }).map(|_| ()) }, &nodes, [&a, &b], &w.sel, cfg, &|| Prog::Cres, ex);
    }
    let s = setup(&w)?;
    let x = expect(&w);
    ex.trivial = nev < 2;
    if ex.verbose { eprintln!("events {nev}, with objects {}, islands {}, exact {}", x.ev.iter().filter(|e| e.obj).count(), x.nisl, x.exact); }
    let (end, p) = program(ex, "run", cfg, &[], &s.args, Prog::Cres);
    if end == End::Hang { return Ok(()); }
    if end != End::Ok { ex.viol("C06", "failed", format!("run on healthy files failed: {}", why(&p))); return Ok(()); }
    if let Some(m) = inputs_intact(&w, &s) { ex.viol("C09", "input_changed", m); }
    for b in check_outputs(&w, &s, &x, ex) {
        if b.unw { ex.viol("C10", b.class, b.msg) } else { ex.viol("C06", b.class, b.msg.clone()); if w.minw > 0. { ex.viol("C10", b.class, b.msg); } }
    }
    for l in stray(&w) { ex.viol("C06", "stray_file", format!("the run left behind {l}")); }
    let outs = || -> Vec<Option<Vec<u8>>> { w.files.iter().map(|f| fs::read(&abs(&outpath(&w, f)))).collect() };
    let good = outs();
    let inodes: Vec<i32> = w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect();
    let ops = p.fsops.clone();
    // --- C11
    if let Some(c2) = &w.cfg2 {
        if w.threads != 1 { return Err("threads".into()); }
        let mut w2 = w.clone(); w2.log = w.log2.clone();
        let s2 = setup(&w2)?;
        let (end, p) = program(ex, "again", c2, &[], &s2.args, Prog::Cres);
        if end == End::Fail { ex.viol("C06", "failed", format!("run on healthy files failed: {}", why(&p))); }
        if end == End::Ok { for (i, f) in w.files.iter().enumerate() { let now = fs::read(&abs(&outpath(&w, f))); if now != good[i] { ex.viol("C11", "differs", format!("{}: output differs between two runs with the same input and options ({:?} and {:?} bytes)", f.name, good[i].as_ref().map(|d| d.len()), now.map(|d| d.len()))); break; } } }
        return Ok(());
    }
    // --- faults
    for (n, sel) in w.sel.iter().enumerate() {
        let Some(mut f) = resolve(sel, &ops, &inodes) else { ex.probe("no_operation_for_fault"); continue };
        let target = ops[f.op as usize];
        if f.kind == fk::TRUNC_FILE {
            let Some(k) = inodes.iter().position(|i| *i == target.inode) else { continue };
            let Some(len) = shorten(&w, &s, k, sel.param as u64) else { ex.probe("nothing_to_truncate"); continue };
            f.param = len as i64;
        }
        if f.kind == fk::BAD_SECTOR {
            let Some(k) = inodes.iter().position(|i| *i == target.inode) else { continue };
            f.param = bad_sector(&w.files[k], &s.texts[k], &s.raw[k], sel.param as u64) as i64;
        }
        let s = setup(&w)?;
        let (end, p) = program(ex, &format!("fault{n}"), cfg, &[f], &s.args, Prog::Cres);
        if end == End::Hang { return Ok(()); }
        let fired = p.fired[f.kind as usize] > 0 || p.fired[fk::TORN_CRASH as usize] > 0;
        // a short transfer needs more than the given number of bytes
        if !fired && is_benign(f.kind) { ex.probe("benign_fault_without_effect"); continue; }
        if !fired && ex.replay.is_none() { ex.harness.push(format!("fault {f:?} did not fire, target {target:?}")); continue; }
        let what = format!("{} at operation {} ({})", fk::NAMES[f.kind as usize], f.op, opname(&target));
        judge(&w, &s, &x, end, &p, &f, &what, &good, ex);
        if end == End::Crash || f.kind == fk::ENOSPC_WRITE || f.kind == fk::EIO_READ {
            if prop != "C09" { continue; }
            if let Some(m) = inputs_intact(&w, &s) { ex.viol("C09", "input_changed", format!("{m} ({what})")); continue; }
            if let (End::Crash, Some(l)) = (end, w.lost) { lose(&inodes, l, ex); }
            let (end, p) = program(ex, &format!("rerun{n}"), cfg, &[], &s.args, Prog::Cres);
            if end == End::Hang { return Ok(()); }
            if end != End::Ok { ex.viol("C09", "rerun_failed", format!("after {what}, the rerun failed: {}", why(&p))); }
            else if w.threads == 1 && outs() != good { ex.viol("C09", "rerun_differs", format!("after {what}, the rerun wrote different outputs")); }
            else { for b in check_outputs(&w, &s, &x, ex) { ex.viol("C09", "rerun_wrong", format!("after {what}: {}", b.msg)); } }
        }
    }
    // --- a disk that is too small
    if let Some(room) = w.room {
        let s = setup(&w)?;
        let used: u64 = fs::list().iter().map(|(_, d)| d.len() as u64).sum();
        let need: u64 = good.iter().flatten().map(|d| d.len() as u64).sum();
        let mut c = *cfg;
        c.capacity = used + need * room.min(1000) / 1000;
        let (end, p) = program(ex, "small_disk", &c, &[], &s.args, Prog::Cres);
        if end == End::Ok { for b in check_outputs(&w, &s, &x, ex) { ex.viol("C07", "lost_output", format!("success reported with {} bytes for {need} bytes of output: {} {}", c.capacity - used, b.class, b.msg)); } }
        let _ = p;
    }
    Ok(())
}
pub fn gen_log_faults(r: &mut Rng, sel: &mut Vec<Sel>) {
    for _ in 0..r.us(1, 4) {
        let (class, kind) = *r.pick(&[(4, fk::ENOSPC_WRITE), (4, fk::EIO_WRITE), (6, fk::EIO_WRITE), (3, fk::OPEN_ERR), (5, fk::MKDIR_ERR), (2, fk::EIO_READ), (2, fk::EIO_READ_STICKY), (8, fk::EIO_READ), (1, fk::OPEN_ERR), (7, fk::OPEN_ERR), (8, fk::EINTR_READ), (4, fk::EINTR_WRITE)]);
        let param = if kind == fk::OPEN_ERR || kind == fk::MKDIR_ERR { *r.pick(&[libc_errno::EACCES, libc_errno::ENOSPC, libc_errno::EMFILE, libc_errno::EIO]) } else { r.range(1, 40) as i64 };
        sel.push(Sel { at: r.below(1000), class, kind, param });
    }
}
/// messages of level info and above, and the final report, without times and colours
fn messages(p: &Phase<i32>) -> Vec<String> {
    let mut t = String::new();
    let mut c = p.stderr.chars().peekable();
    while let Some(x) = c.next() {
        if x == '\x1b' { if c.peek() == Some(&'[') { for y in c.by_ref() { if y.is_ascii_alphabetic() { break; } } } } else if x != '\r' { t.push(x) }
    }
    let mut v = vec![];
    for l in t.lines() {
        let n = v.len();
        for lv in ["INFO ", "WARN ", "ERROR "] {
            let Some(i) = l.find(&format!("Z {lv}")) else { continue };
            if i >= 20 && l[i - 20..i].starts_with('[') { v.push(l[i + 2..].to_string()); break; }
        }
        // may follow the last state of the progress display
        if let (true, Some(i)) = (v.len() == n, l.find("Error: ")) { v.push(l[i..].to_string()); }
    }
    v
}
/// The same single-threaded run with and without progress display: the same messages have to appear.
pub fn same_log(setup: &dyn Fn(usize) -> Result<(), String>, nodes: &dyn Fn() -> Vec<i32>, args: [&[String]; 2], sel: &[Sel], cfg: &Cfg, prog: &dyn Fn() -> Prog, ex: &mut Ex) -> Result<(), String> {
    let mut ops: [Vec<FsOp>; 2] = Default::default();
    for n in 0..=sel.len() {
        let mut got: Vec<(End, Vec<String>)> = vec![];
        let mut what = "without faults".to_string();
        let mut target = None;
        for k in 0..2 {
            setup(k)?;
            let nodes = nodes();
            let mut faults = vec![];
            if n > 0 {
                let Some(f) = resolve(&sel[n - 1], &ops[k], &nodes) else { ex.probe("no_operation_for_fault"); break };
                // where transfers are cut must not depend on how much else happens
                if (0..2).any(|k| ops[0].iter().zip(&ops[1]).take(f.op as usize + 1).any(|(a, b)| (a.kind, a.inode, a.arg) != (b.kind, b.inode, b.arg)) || ops[k].len() <= f.op as usize) { ex.probe("operations_depend_on_log_level"); break; }
                let t = ops[k][f.op as usize];
                if target.is_some_and(|x| x != (t.kind, t.inode)) { ex.probe("fault_at_another_operation"); break; }
                target = Some((t.kind, t.inode));
                what = format!("with {} at operation {} ({})", fk::NAMES[f.kind as usize], f.op, opname(&t));
                faults.push(f);
            }
            let (end, p) = program(ex, &format!("log{n}_{k}"), cfg, &faults, args[k], prog());
            if end == End::Hang { return Ok(()); }
            if n == 0 { ops[k] = p.fsops.clone(); }
            if p.stderr.len() + 1000 > simrt::MAX_STDERR { ex.probe("log_too_long"); return Ok(()); }
            got.push((end, messages(&p)));
        }
        if got.len() < 2 { continue; }
        if got[0].0 != got[1].0 { ex.viol("C18", "result", format!("{what}: the run ends with {:?} with progress display and {:?} without", got[0].0, got[1].0)); return Ok(()); }
        if got[0].1 != got[1].1 {
            let (a, b) = (&got[0].1, &got[1].1);
            let i = a.iter().zip(b).take_while(|x| x.0 == x.1).count();
            ex.viol("C18", "swallowed", format!("{what}: message {i} is {:?} with progress display and {:?} without", a.get(i), b.get(i)));
            return Ok(());
        }
        if ex.verbose { eprintln!("{what}: {:?} {} messages, the last {:?}", got[0].0, got[0].1.len(), got[0].1.last()); }
        if n > 0 && got[0].0 == End::Fail { ex.probe("messages_of_failed_run_compared"); }
    }
    Ok(())
}
fn opname(o: &FsOp) -> String {
    let k = match o.kind { op::OPEN => "open", op::READ => "read", op::WRITE => "write", op::CLOSE => "close", op::STAT => "stat", op::MKDIR => "mkdir", op::LSEEK => "lseek", _ => "operation" };
    format!("{k} {}", if o.inode >= 0 { fs::path(o.inode as usize) } else { String::new() })
}
pub fn lose(inputs: &[i32], keep: u64, ex: &mut Ex) {
    for i in 0..simrt::MAX_INODES {
        let n = &simrt::shm().inodes[i];
        if n.used == 0 || n.is_dir != 0 || inputs.contains(&(i as i32)) || n.size <= n.synced || n.opens_w == 0 { continue; }
        let to = n.synced + (n.size - n.synced) * keep.min(1000) / 1000;
        if to < n.size { ex.fired[fk::LOST_UNSYNCED as usize] += 1; fs::truncate(i, to); }
    }
}
/// first unreadable byte: just behind a record, anywhere, or the end
pub fn bad_sector(f: &InFile, t: &Text, raw: &[u8], at: u64) -> u64 {
    let (how, at) = (at % 8, at / 8);
    if how == 3 { return raw.len() as u64; }
    if how < 3 && f.comp == 0 && !f.ev.is_empty() {
        let mut v = t.header.clone();
        for r in &t.recs[..at as usize % (t.recs.len() + 1)] { push_rec(&mut v, r); }
        // the readers look ahead by a few characters
        return (v.len() as u64 + [0, 0, 1, 3, 2, 4, 7, 5][(at / 64) as usize % 8]).min(raw.len() as u64);
    }
    if how < 7 && f.comp == 0 {
        // right behind the characters the readers look for
        let pat: &[&[u8]] = match f.fmt { 0 => &[b"\n", b"\nE ", b"E "], 1 => &[b"<event>\n", b"</event>\n", b"\n", b"<event"], _ => &[b"<se", b"<se", b"</se>", b"<e>"] };
        let pat = pat[at as usize % pat.len()];
        let pos: Vec<usize> = raw.windows(pat.len()).enumerate().filter(|x| x.1 == pat).map(|x| x.0 + pat.len()).collect();
        if !pos.is_empty() { return pos[(at / 12) as usize % pos.len()] as u64; }
    }
    at % (raw.len() as u64 + 1)
}
/// length to which input `k` is cut so that at least one record is lost
fn shorten(w: &W, s: &Setup, k: usize, at: u64) -> Option<u64> {
    let f = &w.files[k];
    // known finding: the end of lz4 data is not checked
    if f.ev.is_empty() || f.comp == 4 || f.comp != 0 && f.members > 1 { return None; }
    if f.comp == 0 {
        let keep = (at as usize * f.ev.len()) / 1000;
        let mut v = s.texts[k].header.clone();
        for r in &s.texts[k].recs[..keep] { push_rec(&mut v, r); }
        Some(v.len() as u64)
    } else { Some(8 + at * (s.raw[k].len() as u64 - 8) / 1001) }
}

fn judge(w: &W, s: &Setup, x: &Expect, end: End, p: &Phase<i32>, f: &Fault, what: &str, good: &[Option<Vec<u8>>], ex: &mut Ex) {
    let reading = matches!(f.kind, fk::EIO_READ | fk::EIO_READ_STICKY | fk::SHORT_READ | fk::EINTR_READ | fk::TRUNC_FILE | fk::BAD_SECTOR) || (f.kind == fk::OPEN_ERR || f.kind == fk::OPEN_EINTR) && p.fsops.get(f.op as usize).is_some_and(|o| o.arg & 3 == 0);
    let prop = if reading { "C08" } else { "C07" };
    match end {
        End::Ok => {
            for b in check_outputs(w, s, x, ex) { ex.viol(prop, if reading { "changed_by_read_fault" } else { "lost_output" }, format!("success reported despite {what}, but {}: {}", b.class, b.msg)); }
            if is_benign(f.kind) && w.threads == 1 { for (i, g) in w.files.iter().enumerate() { if fs::read(&abs(&outpath(w, g))) != good[i] { ex.viol(prop, "benign_changes_output", format!("output {} changed by {what}", g.name)); } } }
        }
        End::Fail if is_benign(f.kind) => ex.viol(prop, "benign_fails", format!("failure because of {what}: {}", why(p))),
        _ => {}
    }
    if let Some(m) = if f.kind == fk::TRUNC_FILE { None } else { inputs_intact(w, s) } { ex.viol("C09", "input_changed", format!("{m} ({what})")); }
}
/// files that are neither inputs nor outputs
fn stray(w: &W) -> Vec<String> {
    let mut ok: Vec<String> = w.files.iter().map(|f| abs(&inpath(f))).collect();
    ok.extend(w.files.iter().map(|f| abs(&outpath(w, f))));
    ok.push(abs("args.txt"));
    fs::list().into_iter().map(|x| x.0).filter(|p| !ok.contains(p)).collect()
}

/// damaged inputs, colliding paths
fn special(prop: &str, w: &W, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let s = setup(w)?;
    if w.damage.as_ref().is_some_and(|d| d.kind == 5) {
        let (end, _) = program(ex, "unscaled", cfg, &[], &s.args, Prog::Cres);
        if end == End::Ok { ex.viol("C08", "unscaled_accepted", "success reported although there is no normalisation for a STRIPPER XML input".into()); }
        ex.probe("missing_normalisation");
        return Ok(());
    }
    // a normalisation that cannot be undone when writing
    if w.damage.as_ref().is_some_and(|d| d.kind == 6) {
        let d = w.damage.as_ref().unwrap();
        let Some(f) = w.files.iter().rfind(|f| f.fmt == 3 && w.files.iter().any(|g| g.fmt == 2 && g.chan == f.chan && !g.ev.is_empty())) else { ex.trivial = true; return Ok(()) };
        let x = ["0", "nan", "-0.0", "inf", "-inf"][d.at as usize % 5];
        let t = String::from_utf8(text(f).raw()).unwrap();
        let t2 = t.replace(&format!("<xsection> {},", f.xs), &format!("<xsection> {x},"));
        if t == t2 { return Err("normalisation".into()); }
        fs::put(&abs(&inpath(f)), &compress(t2.as_bytes(), f.comp));
        let (end, _) = program(ex, "unscaled", cfg, &[], &s.args, Prog::Cres);
        if end == End::Ok { ex.viol("C08", "bad_scale_accepted", format!("success reported although the cross section of a STRIPPER XML channel is {x}")); }
        ex.probe("unusable_normalisation");
        return Ok(());
    }
    // a weight that no record has
    if let Some(d) = w.damage.as_ref().filter(|d| d.kind == 8) {
        if !cfg!(feature = "multiweight") || w.files.iter().all(|f| f.fmt == 3 || f.ev.is_empty()) { ex.trivial = true; return Ok(()); }
        let mut a = s.args.clone();
        let only_hepmc = w.files.iter().all(|f| f.fmt == 0 || f.ev.is_empty());
        a.splice(1..1, ["--weights".to_string(), if only_hepmc || d.at % 2 == 0 { "no weight has this name" } else { NAMES[d.at as usize / 2 % NAMES.len()] }.into()]);
        let (end, _) = program(ex, "no_such_weight", cfg, &[], &a, Prog::Cres);
        if end == End::Ok { ex.viol("C08", "missing_weight_ignored", format!("success reported although not all records have the weights of {:?}", &a[..3])); }
        ex.probe("missing_weight");
        return Ok(());
    }
    // an input is replaced by one with more events between the two passes
    if let Some(d) = w.damage.as_ref().filter(|d| d.kind == 7) {
        let n = w.files.len();
        let Some(k) = (0..n).map(|i| (d.file + i) % n).find(|i| w.files[*i].fmt != 3 && !w.files[*i].ev.is_empty()) else { ex.trivial = true; return Ok(()) };
        let mut w2 = w.clone();
        let ev = &mut w2.files[k].ev;
        let more = 1 + (d.at as usize / 7) % ev.len().min(4);
        for _ in 0..more { let i = if d.at % 2 == 0 { ev.len() - 1 } else { d.at as usize / 31 % ev.len() }; ev.remove(i); }
        if unscaled(&w2.files) { return Ok(()); }
        let s2 = setup(&w2)?;
        fs::put(&abs("newer"), &s.raw[k]);
        let (end, p) = program(ex, "before", cfg, &[], &s2.args, Prog::Cres);
        if end != End::Ok { ex.probe("replaced_input_not_usable"); return Ok(()); }
        let (Some(old), Some(new)) = (fs::find(&abs(&inpath(&w.files[k]))), fs::find(&abs("newer"))) else { return Err("inode".into()) };
        let opens: Vec<usize> = p.fsops.iter().enumerate().filter(|(_, o)| o.kind == op::OPEN && o.inode == old as i32).map(|x| x.0).collect();
        let Some(at) = opens.len().checked_sub(1 + (d.at as usize / 3) % 2).map(|i| opens[i]) else { ex.probe("no_operation_for_fault"); return Ok(()) };
        setup(&w2)?;
        fs::put(&abs("newer"), &s.raw[k]);
        let (end, _) = program(ex, "replaced", cfg, &[Fault { op: at as u32, kind: fk::REPLACE_FILE, param: new as i64 }], &s2.args, Prog::Cres);
        if end == End::Ok {
            // fine if the file was not read again, or had not been read
            let good = check_outputs(&w2, &s2, &expect(&w2), ex).is_empty() || check_outputs(w, &s, &expect(w), ex).is_empty();
            if good { ex.probe("replacement_without_effect"); } else { ex.viol("C08", "grown_input_accepted", format!("success reported although {} had {more} more events when it was read the second time", w.files[k].name)); }
        }
        ex.probe("replaced_input");
        return Ok(());
    }
    if let Some(d) = &w.damage {
        let Some((data, k, what)) = damaged(&w.files, &w.req, &s.texts, &s.raw, d) else { ex.trivial = true; return Ok(()) };
        fs::put(&abs(&inpath(&w.files[k])), &data);
        let (end, _) = program(ex, "damaged", cfg, &[], &s.args, Prog::Cres);
        if end == End::Ok {
            let class = match d.kind % 4 { 0 if w.files[k].comp == 4 => "lz4_truncated_accepted", 0 => "truncated_accepted", 2 => "cut_record_accepted", _ => "malformed_accepted" };
            // the end of the stream may hold nothing the program needs
            if d.kind % 4 != 0 || !check_outputs(w, &s, &expect(w), ex).is_empty() { ex.viol("C08", class, format!("success reported although {what}")); } else { ex.probe("truncation_without_effect"); }
        }
        return Ok(());
    }
    if w.outdir == 3 {
        let name = |f: &InFile| (f.fmt != 3).then(|| f.name.clone());
        if !w.files.iter().enumerate().any(|(i, f)| w.files[..i].iter().any(|g| name(f).is_some() && name(f) == name(g))) { return Err("no clash".into()); }
        let (end, _) = program(ex, "same_name", cfg, &[], &s.args, Prog::Cres);
        if end == End::Ok { ex.viol("C09", "clash_accepted", "success reported although two outputs have the same name".into()); }
        if let Some(m) = inputs_intact(w, &s) { ex.viol("C09", "input_changed", m); }
        return Ok(());
    }
    // outputs next to the inputs
    let x = expect(w);
    let (end, _) = program(ex, "same_dir", cfg, &[], &s.args, Prog::Cres);
    ex.probe(if end == End::Ok { "same_dir_success" } else { "same_dir_refused" });
    if let Some(m) = inputs_intact(w, &s) { ex.viol("C09", "input_overwritten", format!("{m} when outputs go to the directory of the inputs (end {end:?})")); }
    else if end == End::Ok { for b in check_outputs(w, &s, &x, ex) { ex.viol("C06", b.class, b.msg); } }
    let _ = prop;
    Ok(())
}
/// contents of a damaged input, which, description
pub fn damaged(files: &[InFile], req: &[usize], texts: &[Text], raw: &[Vec<u8>], d: &Damage) -> Option<(Vec<u8>, usize, String)> {
    let k = d.file % files.len();
    let f = &files[k];
    let t = &texts[k];
    match d.kind % 4 {
        0 => {
            if f.comp == 0 || f.members > 1 || raw[k].len() < 10 { return None; }
            let n = 8 + (d.at as usize % (raw[k].len() - 8));
            Some((raw[k][..n].to_vec(), k, format!("compressed input {} (compression {}) ends after {n} of {} bytes", f.name, f.comp, raw[k].len())))
        }
        kind => {
            // a field the program has to parse
            let mut pos: Vec<(usize, usize)> = vec![];
            for (a, r) in t.recs.iter().enumerate() { for (b, sg) in r.iter().enumerate() { match sg { Seg::F(_) | Seg::W(..) => pos.push((a, b)), _ => {} } } }
            if pos.is_empty() { return None; }
            let (a, b) = pos[d.at as usize % pos.len()];
            let mut t2 = t.clone();
            let old = match &t2.recs[a][b] { Seg::F(s) | Seg::W(_, s) => s.clone(), _ => unreachable!() };
            let what;
            // a record without one of the weights
            if kind == 3 && !req.is_empty() && d.at / 5 % 3 == 0 {
                let mut v = vec![];
                push_rec(&mut v, &t.recs[a]);
                let st = v.windows(3).position(|x| x == b"\nN ")? + 1;
                let en = st + v[st..].iter().position(|c| *c == b'\n')? + 1;
                let line = String::from_utf8_lossy(&v[st..en]).into_owned();
                let new = match d.at / 15 % 4 {
                    0 => String::new(),
                    1 => line.replacen(&format!("\"{}\"", NAMES[req[d.at as usize / 60 % req.len()]]), "\"nothing\"", 1),
                    2 => line.replacen("N ", "N x", 1),
                    _ => line.replacen("\" ", "?", 1),
                };
                if new == line { return None; }
                v.splice(st..en, new.bytes());
                let what = format!("{} record {a} has {new:?} instead of {line:?}", f.name);
                t2.recs[a] = vec![Seg::T(v)];
                return Some((compress(&t2.raw(), f.comp), k, what));
            }
            // these records have an end mark
            let end: &[u8] = match f.fmt { 1 => b"</event>", 2 => b"</se>", _ => b"" };
            if kind == 2 && !end.is_empty() && d.at / 7 % 2 == 1 {
                let mut v = vec![];
                push_rec(&mut v, &t.recs[a]);
                let n = v.windows(end.len()).position(|x| x == end)? + end.len();
                v.truncate(9 + d.at as usize / 14 % (n - 9));
                what = format!("{} is cut off in record {a} after {} of {n} bytes", f.name, v.len());
                t2.recs.truncate(a);
                t2.recs.push(vec![Seg::T(v)]);
                t2.footer.clear();
            } else if kind == 2 {
                t2.recs.truncate(a + 1);
                t2.recs[a].truncate(b);
                t2.footer.clear();
                what = format!("{} is cut off in record {a} before the field {old:?}", f.name);
            } else {
                let bad = match d.at as usize / pos.len() % 8 { 0 | 1 => "abc".into(), 2 => format!("{old}abc"), 3 => format!("{old}D+01"), 4 => "--1".into(), 5 => format!("{old}_"), 6 => format!("#{old}"), _ => match &t.recs[a][b] { Seg::W(i, _) if *i > 0 => "+".into(), _ => "nan".into() } };
                what = format!("{} record {a} has {bad:?} instead of {old:?}", f.name);
                t2.recs[a][b] = Seg::F(bad);
            }
            Some((compress(&t2.raw(), f.comp), k, what))
        }
    }
}
