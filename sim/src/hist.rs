//! Histories of calls on event I/O objects against a list of records: C17.
use crate::e2e::{abs, check_files, gen_comp, gen_file, inpath, is_benign, put_files, resolve, Sel};
use crate::ex::{self, Ex};
use crate::files::*;
use crate::rng::Rng;
use cres::event::Weights;
use cres::io::{CombinedFileIO, EventRecord, FileIO, FileReader, IOBuilder};
use cres::traits::{Rewind, UpdateWeights};
use noisy_float::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simrt::{fk, fs, Cfg, Fault, Outcome};

/// 0 next (n times), 1 rewind, 2 size hint, 3 update the next weights (n times),
/// 4 update all weights (n = 0: of all events, 1: fewer, 2: more), 5 read to the end and n times more, 6 finish
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call { pub k: u8, pub n: u32, pub s: u64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct W {
    pub files: Vec<InFile>,
    /// 0 several files, 1 one pair of files, 2 one file, reading only
    pub kind: u8,
    pub comp: Option<String>,
    pub calls: Vec<Call>,
    pub sel: Vec<Sel>,
    /// difference between the number of subevents announced in XML files and the real number
    pub lie: i64,
}
const EXT: [&str; 4] = ["hepmc", "lhe", "xml", "norm.xml"];

pub fn gen(r: &mut Rng, cfg: &mut Cfg) -> W {
    let kind = match r.below(10) { 0 => 1, 1 | 2 => 2, _ => 0 };
    let nfiles = if kind > 0 { 1 } else { match r.below(12) { 0 => 0, 1 | 2 => 1, 3..=6 => 2, 7..=9 => 3, _ => 4 } };
    let same = if r.chance(30) { Some(r.below(3) as u8) } else { None };
    let mut files = vec![];
    for k in 0..nfiles {
        let mut fmt = same.unwrap_or(*r.pick(&[0, 0, 1, 1, 2]));
        if kind == 1 && fmt == 2 { fmt = 0; }
        let nev = match r.below(10) { 0 | 1 => 0, 2 | 3 => 1, 4..=8 => r.us(2, 6), _ => r.us(5, 20) };
        let nw = if fmt == 0 { *r.pick(&[1, 1, 2, 4, 9]) } else { 1 };
        let mut f = gen_file(r, &format!("f{k}.{}", EXT[fmt as usize]), fmt, nev, nw);
        for e in &mut f.ev {
            for w in &mut e.w { *w = (r.f() * 3. - 1.) * *r.pick(&[1., 1e-6, 1e5, 1e-19, 1e-26]); }
            for _ in 0..r.us(0, 3) {
                let id = *r.pick(&[21, 1, -2, 11, 22, 12]);
                e.q.push(Part { id, p: [20. + 50. * r.f(), 30. * r.f(), 10. * r.f()], m: 0., out: r.chance(80) });
            }
        }
        files.push(f);
    }
    for c in 0..2u8 {
        if kind == 0 && files.iter().any(|f: &InFile| f.fmt == 2 && f.chan == c) {
            let mut f = gen_file(r, &format!("n{c}.norm.xml"), 3, 0, 1);
            f.chan = c;
            let at = r.us(0, files.len());
            files.insert(at, f);
        }
    }
    let mut calls = vec![];
    let mut mode = r.below(3);
    for _ in 0..r.us(1, 22) {
        if r.chance(20) { mode = r.below(3); }
        let k = match (mode, r.below(10)) { (_, 0) => 1, (_, 1) => 2, (0, 2..=6) => 0, (0, 7) => 5, (1, 2..=7) => 3, (1, 8) => 6, (2, 2..=5) => 4, (_, 8) => 5, (_, 9) => 4, (_, x) => (x % 4) as u8 };
        calls.push(Call { k, n: match k { 4 => *r.pick(&[0, 0, 0, 0, 1, 2]), 3 => *r.pick(&[1, 2, 5, 40]), _ => *r.pick(&[1, 1, 2, 4]) }, s: r.below(1 << 20) });
    }
    let mut sel = vec![];
    if r.chance(60) { ex::gen_benign_io(r, cfg); }
    if r.chance(50) {
        for _ in 0..r.us(1, 5) {
            let (class, kind) = *r.pick(&[(2, fk::EIO_READ), (2, fk::EIO_READ), (2, fk::EIO_READ), (1, fk::OPEN_ERR), (1, fk::OPEN_ERR), (3, fk::OPEN_ERR), (1, fk::OPEN_EINTR), (2, fk::SHORT_READ), (2, fk::EINTR_READ)]);
            let param = if kind == fk::OPEN_ERR { *r.pick(&[13, 2, 24, 5]) } else { *r.pick(&[1, 2, 3, 20]) };
            sel.push(Sel { at: r.below(1000), class, kind, param });
        }
    }
    let lie = if r.chance(10) { *r.pick(&[-3, -1, 4]) } else { 0 };
    W { files, kind, comp: gen_comp(r), calls, sel, lie }
}

enum Obj { C(Box<CombinedFileIO>), S(Box<FileIO>), R(Box<FileReader>) }
type Next = Option<Result<EventRecord, String>>;
fn say<E: std::error::Error>(e: E) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c { s += &format!(": {x}"); c = x.source(); }
    s
}
impl Obj {
    fn next(&mut self) -> Next {
        match self { Obj::C(o) => o.next().map(|r| r.map_err(say)), Obj::S(o) => o.next().map(|r| r.map_err(say)), Obj::R(o) => o.next().map(|r| r.map_err(say)) }
    }
    fn rewind(&mut self) -> Result<(), String> { match self { Obj::C(o) => o.rewind().map_err(say), Obj::S(o) => o.rewind().map_err(say), Obj::R(o) => o.rewind().map_err(say) } }
    fn hint(&self) -> (usize, Option<usize>) { match self { Obj::C(o) => o.size_hint(), Obj::S(o) => o.size_hint(), Obj::R(o) => o.size_hint() } }
    fn upd(&mut self, w: &Weights) -> Option<Result<bool, String>> { match self { Obj::C(o) => Some(o.update_next_weights(w).map_err(say)), Obj::S(o) => Some(o.update_next_weights(w).map_err(say)), _ => None } }
    fn all(&mut self, w: &[Weights]) -> Option<Result<usize, String>> { match self { Obj::C(o) => Some(o.update_all_weights(w).map_err(say)), Obj::S(o) => Some(o.update_all_weights(w).map_err(say)), _ => None } }
    fn finish(&mut self) -> Option<Result<(), String>> { match self { Obj::C(o) => Some(o.finish_weight_update().map_err(say)), Obj::S(o) => Some(o.finish_weight_update().map_err(say)), _ => None } }
}

/// new weight, None: the record stays as it is
fn new_weight(s: u64, i: u64) -> Option<f64> {
    let h = crate::rng::mix(s, i);
    if cfg!(feature = "multiweight") && h % 7 == 0 { None } else { Some(((h >> 20) % 20_001) as f64 / 16. - 300.) }
}
fn weights(w: Option<f64>) -> Weights { w.map_or_else(Weights::default, |w| Weights::new_single(n64(w))) }

#[derive(Serialize, Deserialize, Default)]
struct Rep { viol: Vec<(String, String)>, probes: Vec<String>, calls: usize }

/// what was written to an output since its input was last entered
#[derive(Clone, Default)]
struct Out { upd: Vec<Option<f64>>, spoilt: bool, finished: bool }
struct Model {
    len: Vec<usize>, out: Vec<Out>,
    entered: bool, f: usize, pos: usize,
    /// after an error, until the next rewind
    lost: bool,
    /// finished before the last record: nothing may be added until the next rewind
    closed: bool,
    /// updates were attempted since the start
    dirty: bool,
}
impl Model {
    fn total(&self) -> usize { self.len.iter().sum() }
    fn at(&self) -> usize { if self.entered { self.len[..self.f].iter().sum::<usize>() + self.pos } else { 0 } }
    fn lose(&mut self) { self.lost = true; for o in &mut self.out { o.spoilt = true; } }
    fn enter(&mut self, f: usize) { self.entered = true; self.f = f; self.pos = 0; self.out[f] = Out::default(); }
    /// go to the file with the next record
    fn seek(&mut self, upd: bool) -> Option<(usize, usize)> {
        if self.len.is_empty() { return None; }
        if !self.entered { self.enter(0); }
        loop {
            if self.pos < self.len[self.f] { return Some((self.f, self.pos)); }
            if upd { self.out[self.f].finished = true; }
            if self.f + 1 == self.len.len() { return None; }
            let n = self.f + 1;
            self.enter(n);
        }
    }
}
const HARD: [u32; 2] = [fk::EIO_READ, fk::OPEN_ERR];
fn fired_of(k: u32) -> u64 { simrt::shm().st.fired[k as usize] as u64 }
fn fired() -> u64 { let m = simrt::shm(); HARD.iter().map(|k| m.st.fired[*k as usize]).sum() }

/// a record as delivered by the reader
fn check_record(f: &InFile, t: &Text, k: usize, scale: f64, got: EventRecord) -> Result<(), String> {
    let ok = match (&got, f.fmt) { (EventRecord::HepMC(_), 0) | (EventRecord::LHEF(_), 1) | (EventRecord::StripperXml(_), 2) => true, _ => false };
    if !ok { return Err("record of another format".into()); }
    let s: String = got.try_into().map_err(|_| "not text".to_string())?;
    let one = Text { header: vec![], recs: vec![t.recs[k].clone()], footer: if k + 1 == t.recs.len() && f.fmt != 1 { t.footer.clone() } else { vec![] } };
    let w = read_output(&one, &[f.ev[k].w.len()], s.as_bytes()).map_err(|e| format!("{} {}", e.0, e.1))?;
    for (i, x) in w[0].iter().enumerate() {
        let want = f.ev[k].w[i] * if i == 0 { scale } else { 1. };
        if x.is_some_and(|x| !close(x, want)) { return Err(format!("weight {i} is {x:?} instead of {want}")); }
    }
    Ok(())
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) }
/// a completely updated output
fn check_output(f: &InFile, t: &Text, scale: f64, out: &Out, path: &str, comp: u8) -> Result<(), (&'static str, String)> {
    let d = fs::read(path).ok_or(("missing", format!("{path} does not exist")))?;
    let d = decompress(&d, comp).map_err(|e| ("incomplete", format!("{path}: {e}")))?;
    let nw: Vec<usize> = f.ev.iter().map(|e| e.w.len()).collect();
    let got = read_output(t, &nw, &d).map_err(|(c, m)| (c, format!("{path}: {m}")))?;
    for (k, ws) in got.iter().enumerate() {
        for (i, x) in ws.iter().enumerate() {
            let want = match out.upd[k] { Some(w) if i == 0 => w / scale, _ => f.ev[k].w[i] };
            if x.is_some_and(|x| !close(x, want)) { return Err(("weight", format!("{path}: record {k} has weight {i} {x:?} instead of {want}"))); }
        }
    }
    Ok(())
}

struct Job<'a> { w: &'a W, files: Vec<InFile>, texts: Vec<Text>, scales: Vec<f64>, comp: u8 }
fn outpath(f: &InFile) -> String { format!("out/{}", f.name) }

fn go(j: &Job) -> Rep {
    let w = j.w;
    let mut rep = Rep::default();
    macro_rules! bad { ($c:expr, $($m:tt)*) => {{ rep.viol.push(($c.to_string(), format!($($m)*))); return rep; }} }
    let n = j.files.len();
    let mut m = Model { len: j.files.iter().map(|f| f.ev.len()).collect(), out: vec![Out::default(); n], entered: false, f: 0, pos: 0, lost: false, closed: false, dirty: false };
    let mut builder = IOBuilder::default();
    builder.compression(w.comp.as_ref().map(|c| match comp_kind(c) { 1 => cres::compression::Compression::Gzip(6), 2 => cres::compression::Compression::Bzip2, 3 => cres::compression::Compression::Zstd(3), _ => cres::compression::Compression::Lz4(0) }));
    let make = || -> Result<Obj, String> {
        Ok(match w.kind {
            0 => Obj::C(Box::new(builder.clone().build_from_files_iter(w.files.iter().map(|f| (inpath(f), outpath(f)))).map_err(say)?)),
            1 => Obj::S(Box::new(builder.clone().build_from_files(inpath(&j.files[0]).into(), outpath(&j.files[0]).into()).map_err(say)?)),
            _ => Obj::R(Box::new(FileReader::try_new(inpath(&j.files[0]).into()).map_err(say)?)),
        })
    };
    let mut o = None;
    for _ in 0..=w.sel.len() {
        let (before, open) = (fired(), fired_of(fk::OPEN_ERR));
        match make() {
            Ok(x) => {
                if fired_of(fk::OPEN_ERR) > open { bad!("fault_hidden", "constructed although an input or output could not be opened"); }
                o = Some(x); break;
            }
            Err(e) => { if fired() == before { bad!("construct", "healthy files were refused: {e}"); } rep.probes.push("construction_failed".into()); }
        }
    }
    let Some(mut o) = o else { bad!("construct", "construction keeps failing") };
    let single = w.kind > 0;
    if !m.len.is_empty() { m.enter(0); }
    for (ci, c) in w.calls.iter().enumerate() {
        rep.calls += 1;
        let at = |m: &Model| format!("call {ci} {c:?}, position {}", m.at());
        match c.k {
            0 | 5 => {
                let cap = if c.k == 5 { m.total() as u32 + c.n } else { c.n };
                for _ in 0..cap {
                    let before = fired();
                    let x = o.next();
                    let faulty = fired() > before;
                    if m.lost { m.lose(); rep.probes.push("read_after_error".into()); continue; }
                    match x {
                        Some(Err(_)) if faulty => { m.lose(); rep.probes.push("read_error_reported".into()); }
                        Some(Err(e)) => bad!("error", "{}: reading fails without a reason: {e}", at(&m)),
                        _ if faulty => bad!("fault_hidden", "{}: a failed read or open was not reported", at(&m)),
                        x => match (m.seek(false), x) {
                            (None, None) => rep.probes.push("end_seen".into()),
                            (Some((f, k)), None) => bad!("early_end", "{}: the end is signalled before record {k} of {}", at(&m), j.files[f].name),
                            (None, Some(_)) => bad!("after_end", "{}: a record after the last", at(&m)),
                            (Some((f, k)), Some(Ok(r))) => {
                                if let Err(e) = check_record(&j.files[f], &j.texts[f], k, j.scales[f], r) { bad!("record", "{}: not record {k} of {}: {e}", at(&m), j.files[f].name); }
                                m.pos += 1;
                                m.out[f].spoilt = true;
                            }
                            _ => unreachable!(),
                        },
                    }
                }
            }
            1 => {
                let before = fired();
                match o.rewind() {
                    Ok(()) => {
                        if fired() > before { bad!("fault_hidden", "{}: rewinding succeeds although the input cannot be opened or read", at(&m)); }
                        if single { m.pos = 0; if !m.out[0].upd.is_empty() || m.out[0].finished { m.out[0].spoilt = true; } } else { m.entered = false; }
                        if m.lost { rep.probes.push("rewound_after_error".into()); }
                        m.lost = false;
                        m.closed = false;
                    }
                    Err(e) if fired() == before => bad!("error", "{}: rewinding fails without a reason: {e}", at(&m)),
                    Err(_) => m.lost = true,
                }
            }
            2 => {
                let (lo, hi) = o.hint();
                let rem = m.total() - m.at();
                if lo > 1 << 32 || hi.is_some_and(|h| h > 1 << 32) { bad!("hint", "{}: size hint {lo} {hi:?}", at(&m)); }
                if w.lie == 0 && !m.lost && (lo > rem || hi.is_some_and(|h| h < rem)) { bad!("hint", "{}: size hint ({lo}, {hi:?}) with {rem} records to come", at(&m)); }
            }
            // nothing can be added to a finished output
            3 | 4 if single && !m.out.is_empty() && m.out[0].finished => {}
            3 if m.closed => {}
            3 => for i in 0..c.n {
                let nw = new_weight(c.s, i as u64);
                let before = fired();
                let Some(x) = o.upd(&weights(nw)) else { break };
                m.dirty = true;
                let faulty = fired() > before;
                if m.lost { m.lose(); continue; }
                match x {
                    Err(_) if faulty => { m.lose(); rep.probes.push("update_error_reported".into()); }
                    Err(e) => bad!("error", "{}: updating fails without a reason: {e}", at(&m)),
                    Ok(_) if faulty => bad!("fault_hidden", "{}: a failed read or open was not reported", at(&m)),
                    Ok(more) => match m.seek(!single) {
                        None if more => bad!("after_end", "{}: an update after the last record", at(&m)),
                        None => rep.probes.push("update_at_end".into()),
                        Some((f, k)) if !more => bad!("early_end", "{}: the end is signalled before record {k} of {}", at(&m), j.files[f].name),
                        Some((f, _)) => { m.pos += 1; m.out[f].upd.push(nw); if m.out[f].finished { m.out[f].spoilt = true; } }
                    },
                }
            },
            4 => {
                let total = m.total();
                let len = match c.n { 0 => total, 1 => total.saturating_sub(1 + (c.s % 3) as usize), _ => total + 2 };
                let nw: Vec<Option<f64>> = (0..len).map(|i| new_weight(c.s, i as u64)).collect();
                let ws: Vec<Weights> = nw.iter().map(|w| weights(*w)).collect();
                let before = fired();
                let lvl = log::max_level();
                let Some(x) = o.all(&ws) else { continue };
                if log::max_level() != lvl { bad!("log_level", "{}: the log level is changed", at(&m)); }
                let faulty = fired() > before;
                let fresh = !single || !m.dirty;
                m.dirty = true;
                match x {
                    Err(_) if faulty => { m.lose(); m.closed = true; rep.probes.push("update_error_reported".into()); continue; }
                    // not all events can be updated
                    Err(_) if len < total => { m.lose(); m.closed = true; rep.probes.push("too_few_weights_refused".into()); continue; }
                    Err(e) => bad!("error", "{}: updating fails without a reason: {e}", at(&m)),
                    Ok(_) if faulty => bad!("fault_hidden", "{}: a failed read or open was not reported", at(&m)),
                    Ok(x) => {
                        if x != len.min(total) { bad!("count", "{}: {x} of {total} records updated with {len} weights", at(&m)); }
                        m.lost = false;
                        let mut i = 0;
                        for f in 0..n {
                            m.enter(f);
                            let k = m.len[f].min(len.min(total) - i);
                            m.out[f] = Out { upd: nw[i..i + k].to_vec(), spoilt: k < m.len[f] || !fresh, finished: true };
                            m.pos = k;
                            i += k;
                        }
                        // the position after an incomplete update is not specified
                        m.closed = len < total;
                        if len < total { m.lost = true; } else if total > 0 { rep.probes.push("all_updated".into()); }
                    }
                }
            }
            _ => {
                // only where the update is complete
                if m.lost || m.at() < m.total() { continue; }
                let before = fired();
                let Some(x) = o.finish() else { continue };
                match x {
                    Err(_) if fired() > before => { m.lose(); m.closed = true; }
                    Err(e) => bad!("error", "{}: finishing fails without a reason: {e}", at(&m)),
                    Ok(()) if fired() > before => bad!("fault_hidden", "{}: a failed read or open was not reported", at(&m)),
                    Ok(()) => { m.seek(true); if single { m.out[0].finished = true; } rep.probes.push("finished".into()); }
                }
            }
        }
        // every complete output
        for f in 0..n {
            let out = &m.out[f];
            if out.spoilt || !out.finished || out.upd.len() != m.len[f] || w.kind == 2 { continue; }
            if let Err((class, e)) = check_output(&j.files[f], &j.texts[f], j.scales[f], out, &abs(&outpath(&j.files[f])), j.comp) { bad!(class, "after {}: {e}", at(&m)); }
            rep.probes.push("output_compared".into());
        }
    }
    rep
}

pub fn run(prop: &str, spec: &Value, cfg: &Cfg, ex: &mut Ex) -> Result<(), String> {
    let w: W = serde_json::from_value(spec.clone()).map_err(|e| e.to_string())?;
    check_files(&w.files, false)?;
    if w.kind == 0 && crate::e2e::unscaled(&w.files) { return Err("normalisation".into()); }
    let nev: usize = w.files.iter().map(|f| f.ev.len()).sum();
    if nev > 120 || w.calls.len() > 60 || w.files.len() > 8 || w.kind > 2 || w.calls.iter().any(|c| c.n > 100 || c.k > 6) || w.comp.as_ref().is_some_and(|c| comp_kind(c) == 0) { return Err("size".into()); }
    if w.kind > 0 && (w.files.len() != 1 || w.files[0].fmt == 3 || w.kind == 1 && w.files[0].fmt == 2) { return Err("single".into()); }
    if w.sel.iter().any(|s| !(is_benign(s.kind) || HARD.contains(&s.kind)) || !matches!(s.class, 1 | 2 | 3)) { return Err("faults".into()); }
    let keep: Vec<usize> = (0..w.files.len()).filter(|i| w.files[*i].fmt != 3).collect();
    let setup = || -> Vec<Text> {
        fs::reset();
        fs::mkdir(&abs("out"));
        let (mut texts, _) = put_files(&w.files);
        if w.lie != 0 {
            for (f, t) in w.files.iter().zip(&mut texts).filter(|(f, _)| f.fmt == 2) {
                let h = String::from_utf8_lossy(&t.header).into_owned();
                let n = f.ev.len() as i64;
                t.header = h.replace(&format!("nsubevents=\"{n}\""), &format!("nsubevents=\"{}\"", (n + w.lie).max(0))).into_bytes();
                fs::put(&abs(&inpath(f)), &compress_members(&t.raw(), f.comp, f.members));
            }
        }
        texts
    };
    ex.trivial = nev == 0 || w.calls.len() < 2;
    let mut faults: Vec<Fault> = vec![];
    for (round, label) in ["healthy", "faults"].iter().enumerate() {
        if round == 1 && faults.is_empty() { break; }
        let texts = setup();
        let nodes: Vec<i32> = w.files.iter().map(|f| fs::find(&abs(&inpath(f))).map_or(-2, |i| i as i32)).collect();
        let job = Job {
            w: &w, files: keep.iter().map(|i| w.files[*i].clone()).collect(), texts: keep.iter().map(|i| texts[*i].clone()).collect(),
            scales: keep.iter().map(|i| if w.kind == 0 { scale_of(&w.files, *i) } else { 1. }).collect(), comp: w.comp.as_ref().map_or(0, |c| comp_kind(c)),
        };
        let p = ex.phase(label, cfg, &faults, || go(&job));
        match p.outcome {
            Outcome::Returned => {
                let r = p.result.unwrap();
                for (c, m) in r.viol { ex.viol(prop, &c, m); }
                let mut pr = r.probes; pr.sort(); pr.dedup();
                for x in &pr { ex.probe(x); }
                if w.lie != 0 { ex.probe("wrong_number_of_subevents"); }
            }
            Outcome::Harness => return Ok(()),
            Outcome::Deadlock | Outcome::StepLimit | Outcome::CpuLimit => { ex.viol(prop, "hang", p.note); return Ok(()); }
            _ => { ex.viol(prop, "panic", format!("{:?} {:?} {}", p.outcome, p.panic, p.stderr.lines().next().unwrap_or(""))); return Ok(()); }
        }
        if round == 0 { faults = w.sel.iter().filter_map(|s| resolve(s, &p.fsops, &nodes)).collect(); faults.sort_by_key(|f| f.op); faults.dedup_by_key(|f| f.op); }
    }
    Ok(())
}
