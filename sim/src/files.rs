//! Generated event files: the truth they were written from, their exact text
//! with the positions of all weights, and a strict reader for the outputs.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part { pub id: i32, pub p: [f64; 3], pub m: f64, pub out: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev { pub w: Vec<f64>, pub q: Vec<Part>, pub deco: u32 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InFile {
    pub name: String,
    /// directory below the working directory ("" for the working directory itself)
    pub dir: String,
    /// 0 HepMC2, 1 LHEF, 2 STRIPPER XML, 3 STRIPPER XML normalisation
    pub fmt: u8,
    /// compression of the input: 0 none, 1 gzip, 2 bzip2, 3 zstd, 4 lz4
    pub comp: u8,
    pub ev: Vec<Ev>,
    pub deco: u32,
    pub mev: bool,
    /// order of the weight names in this file (HepMC2)
    pub order: Vec<usize>,
    /// XML: contribution name and cross section
    pub chan: u8,
    pub xs: f64,
    /// number of concatenated compressed streams
    #[serde(default)]
    pub members: u8,
}
pub const NAMES: [&str; 40] = ["Default", "muR=0.5 muF=1", "E_alt", "Nominal", "pdf=P14", "E", "N", "muR=0.5 muF=1.0", "Weight", "0", "U GEV MM", "default",
    "PDF303400_0", "PDF303500_0", "PDF303600_0", "PDF303400_1", "PDF303500_1", "PDF303600_1", "PDF303400_2", "PDF303500_2", "PDF303600_2", "PDF303400_3", "PDF303500_3", "PDF303600_3", "PDF303400_4", "PDF303500_4", "PDF303600_4", "PDF303400_5", "PDF303500_5", "PDF303600_5", "PDF303400_6", "PDF303500_6", "PDF303600_6", "PDF303400_7", "PDF303500_7", "PDF303600_7", "PDF303400_8", "PDF303500_8", "PDF303600_8", "PDF303400_9"];
/// the number of names that are in common use here
pub const NNAMES: usize = 12;
/// which weight stands where in the record of an event
pub fn order_of(f: &InFile, e: &Ev) -> Vec<usize> {
    let mut o = f.order.clone();
    // not every record lists them in the same order
    if e.deco & 8192 != 0 && o.len() > 1 { o[1..].rotate_left(1); }
    o
}

#[derive(Clone, Debug)]
pub enum Seg {
    T(Vec<u8>),
    /// weight number, original text
    W(usize, String),
    /// other text that the programs have to parse
    F(String),
}
#[derive(Clone, Debug, Default)]
pub struct Text { pub header: Vec<u8>, pub recs: Vec<Vec<Seg>>, pub footer: Vec<u8> }
pub const XNAMES: [&str; 3] = ["Born", "RRsub", "e&lt;se"];

fn cnum(x: f64, digits: usize) -> String {
    // like printf("%.*e")
    let s = format!("{x:.digits$e}");
    let (m, e) = s.split_once('e').unwrap();
    let (sg, e) = match e.strip_prefix('-') { Some(r) => ('-', r), None => ('+', e) };
    format!("{m}e{sg}{e:0>2}")
}
fn num(x: f64, style: u32) -> String {
    match style % 5 { 0 | 1 => cnum(x, 16), 2 => format!("{x}"), 3 => format!("{x:e}"), _ => if x >= 0. { format!("+{}", cnum(x, 17).to_uppercase()) } else { cnum(x, 17).to_uppercase() } }
}
struct B { segs: Vec<Seg>, cur: Vec<u8> }
impl B {
    fn t(&mut self, s: &str) { self.cur.extend_from_slice(s.as_bytes()); }
    fn flush(&mut self) { if !self.cur.is_empty() { self.segs.push(Seg::T(std::mem::take(&mut self.cur))); } }
    fn w(&mut self, i: usize, s: String) { self.flush(); self.segs.push(Seg::W(i, s)); }
    fn f(&mut self, s: String) { self.flush(); self.segs.push(Seg::F(s)); }
}
pub fn energy(q: &Part) -> f64 { (q.p.iter().map(|x| x * x).sum::<f64>() + q.m * q.m).sqrt() }

/// value of weight channel `c` as the programs understand it
pub fn scale_of(files: &[InFile], i: usize) -> f64 {
    let f = &files[i];
    if f.fmt != 2 { return 1.; }
    let n: u64 = files.iter().filter(|g| g.fmt == 2 && g.chan == f.chan).map(nev_attr).sum();
    let xs = files.iter().filter(|g| g.fmt == 3 && g.chan == f.chan).map(|g| g.xs).next_back().unwrap_or(1.);
    xs / n as f64
}
fn nev_attr(f: &InFile) -> u64 { f.ev.len() as u64 * if f.deco & 16 != 0 { 3 } else { 1 } + 1 }

pub fn text(f: &InFile) -> Text {
    let mut t = Text::default();
    match f.fmt {
        0 => {
            if f.deco & 1 != 0 { t.header.push(b'\n'); }
            t.header.extend_from_slice(if f.deco & 64 != 0 { b"HepMC::Version 2.06.09\r\n\n".as_slice() } else { b"HepMC::Version 2.06.09\n" });
            if f.deco & 128 != 0 { t.header.extend_from_slice(&vec![b'\n'; 8100 + f.deco as usize * 7]); }
            t.header.extend_from_slice(b"HepMC::IO_GenEvent-START_EVENT_LISTING\n");
            for (k, e) in f.ev.iter().enumerate() {
                t.recs.push(hepmc(f, e, k));
                // files that were joined
                if f.deco & 32 != 0 && k % 3 == 1 && k + 1 < f.ev.len() { t.recs[k].push(Seg::T(b"HepMC::IO_GenEvent-END_EVENT_LISTING\nHepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n".to_vec())); }
            }
            if f.deco & 2 == 0 { t.footer.extend_from_slice(b"HepMC::IO_GenEvent-END_EVENT_LISTING\n"); if f.deco & 1 != 0 { t.footer.push(b'\n'); } }
        }
        1 => {
            t.header.extend_from_slice(b"<LesHouchesEvents version=\"1.0\">\n");
            if f.deco & 1 != 0 { t.header.extend_from_slice(b"<!--\nEvents for > tests </init> <event>\n-->\n"); }
            if f.deco & 2 != 0 { t.header.extend_from_slice(b"<header>\n  <MGVersion>\n2.9 </MGVersion>\n</header>\n"); }
            if f.deco & 32 != 0 { t.header.extend_from_slice(b"<header>\n# Andr\xe9 <e> <ev \r\n</header>\r\n"); }
            if f.deco & 128 != 0 { t.header.extend_from_slice(format!("<slha>\n{}</slha>\n", "  1 2 0.345 # </ini\n".repeat(300 + f.deco as usize)).as_bytes()); }
            t.header.extend_from_slice(if f.deco & 64 != 0 { b"<init a=\">\">" } else { b"<init>" });
            t.header.extend_from_slice(b"\n 2212 2212 6.5e+03 6.5e+03 0 0 10042 10042 3 1\n 1.0e+00 1.0e-02 1.0e+00 1\n</init>");
            for e in &f.ev { t.recs.push(lhef(f, e)); }
            t.footer.extend_from_slice(b"\n</LesHouchesEvents>\n");
        }
        2 => {
            if f.deco & 1 != 0 { t.header.extend_from_slice(b"\n  "); }
            t.header.extend_from_slice(b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
            let n = f.ev.len();
            let name = XNAMES[f.chan as usize % 3];
            if f.deco & 32 != 0 { t.header.extend_from_slice(format!("\r\n<Eventrecord\n  name=\"{name}\"  as='2'\n  nsubevents=\"{n}\" other=\"\" nevents='{}' >\r\n", nev_attr(f)).as_bytes()); }
            else { t.header.extend_from_slice(format!("<Eventrecord nevents=\"{}\" nsubevents=\"{n}\" nreweights=\"{n}\" as=\"2\" name=\"{name}\">\n", nev_attr(f)).as_bytes()); }
            if f.deco & 128 != 0 { t.header.extend_from_slice(format!("<!--\n{}-->\n", "run: <s 0.345 e\n".repeat(300 + 2 * f.deco as usize)).as_bytes()); }
            if f.deco & 64 != 0 { t.header.extend_from_slice(b"<!-- Andr\xe9 <s e> s<s -->"); }
            if f.deco & 2 != 0 { t.header.extend_from_slice(b"<!--\nRecord generated with STRIPPER v0.1\n-->\n"); }
            let nrec = f.ev.len();
            for (k, e) in f.ev.iter().enumerate() {
                if k == 0 { t.header.extend_from_slice(b"<e>\n"); }
                t.recs.push(xml(e, k + 1 == nrec, f.deco & 4 != 0));
            }
            t.footer.extend_from_slice(b"</Eventrecord>\n");
        }
        _ => {
            let name = XNAMES[f.chan as usize % 3];
            t.header.extend_from_slice(format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Normalization name=\"{name}\">\n<!--\nFile generated with STRIPPER v0.1 for online data base\n-->\n<XSection>\n <XSNeg> 687.103,0.978277 </XSNeg>\n <MaxWeightNeg> 796475 </MaxWeightNeg>\n <TotalEventsNeg> 488338734 </TotalEventsNeg>\n <AcceptedEventsNeg> 493310 </AcceptedEventsNeg>\n <FactorNeg> 803.98,1.14468 </FactorNeg>\n</XSection>\n<Contribution name=\"{name}\">\n  <xsection> ").as_bytes());
            t.header.extend_from_slice(format!("{},0.978277</xsection>\n  <rw>\n    <rwentry> x1 </rwentry>\n    <rwentry> log(muR**2) </rwentry>\n  </rw>\n</Contribution>\n<NumberOfRejectedEvents> 0 , 100</NumberOfRejectedEvents>\n</Normalization>\n", f.xs).as_bytes());
        }
    }
    t
}
const SPACE: [&str; 4] = [" ", "  ", "\t", "    "];
fn hepmc(f: &InFile, e: &Ev, k: usize) -> Vec<Seg> {
    let mut b = B { segs: vec![], cur: vec![] };
    let d = e.deco;
    let multi = cfg!(feature = "multiweight");
    b.t(&format!("E {k} -1 9.1187999999999988e+01 1.1800000000000000e-01 7.8125000000000000e-03 0 -1 {} 10001 10002 ", e.q.len() + 1));
    let nr = (d & 3) as usize;
    b.f(format!("{nr}"));
    for i in 0..nr { b.t(&format!(" {}", 777 + i)); }
    b.t(" ");
    // a weight that nobody asks for may be broken
    let extra = (d >> 19 & 1) as usize;
    b.f(format!("{}", e.w.len() + extra));
    for (i, w) in e.w.iter().enumerate() {
        b.t(SPACE[(d >> 14) as usize % 8 * (i + 1) % 7 % 4]);
        let s = num(*w, d >> 2);
        if i == 0 || multi { b.w(i, s) } else { b.t(&s) }
    }
    if extra > 0 { b.t(["  nan", " inf"][(d >> 20 & 1) as usize]); }
    b.t(["\n", "\n", " \n", "\r\n"][(d >> 17) as usize % 4]);
    if e.w.len() > 1 || d & 32 != 0 {
        b.t(&format!("N {}", e.w.len() + extra));
        let order = order_of(f, e);
        for i in 0..e.w.len() { b.t(&format!(" \"{}\"", NAMES[order.get(i).copied().unwrap_or(i) % NAMES.len()])); }
        if extra > 0 { b.t(" \"broken\""); }
        b.t(if d & 64 != 0 { " \n" } else { "\n" });
    }
    if f.mev || d & 128 != 0 { b.t("U "); b.f(if f.mev { "MEV" } else { "GEV" }.into()); b.t(" MM\n"); }
    if d & 256 != 0 { b.t("C 1.2345000000000000e+02 1.0000000000000001e-01\n"); }
    if d & 512 != 0 { b.t("H 1 2 3 4 5 6 7 8 9 0.1 0.2 0.3 0.4\n"); }
    if d & 1024 != 0 { b.t("F 21 -2 1.2e-02 3.4e-02 9.1e+01 1.0 2.0 0 0\n"); }
    b.t(&format!("V -1 0 0 0 0 0 2 {} 0\n", e.q.len()));
    for (j, q) in e.q.iter().enumerate() {
        let u = if f.mev { 1e3 } else { 1. };
        b.t(&format!("P {} ", 10001 + j));
        b.f(q.id.to_string());
        for x in [q.p[0] * u, q.p[1] * u, q.p[2] * u, energy(q) * u] { b.t(" "); b.f(num(x, d >> 2)); }
        b.t(&format!(" {} ", num(q.m * u, 2)));
        b.f(if q.out { 1 } else { 2 + (d >> 3) % 3 * 9 }.to_string());
        b.t(if d & 2048 != 0 { " 0 0 -1 1 1 501\n" } else { " 0 0 0 0\n" });
        if d & 4096 != 0 && j == 0 { b.t("V -2 0 0 0 0 0 0 1 0\n"); }
    }
    b.flush();
    b.segs
}
fn lhef(_f: &InFile, e: &Ev) -> Vec<Seg> {
    let mut b = B { segs: vec![], cur: vec![] };
    let d = e.deco;
    let nl = if d >> 17 & 3 == 3 { "\r\n" } else { "\n" };
    b.t(if d & 1 != 0 { "\n<event npLO=\" -1 \" npNLO=\" 1 \">" } else { "\n<event>" });
    b.t(nl);
    let pad = if d & 2 != 0 { "      " } else { "" };
    // incoming particles are not always listed
    let inc = [2, 2, 2, 2, 2, 1, 0, 0][(d >> 9 & 7) as usize];
    b.t(pad); b.f((e.q.len() + inc).to_string());
    b.t(if d & 2 != 0 { "      66" } else { " 66" });
    b.t(SPACE[(d >> 14) as usize % 4]);
    b.w(0, num(e.w[0], d >> 2));
    b.t(" 9.1e+01 7.8e-03 1.2e-01"); b.t(nl);
    for (id, z) in [(21, 1.), (-2, -1.)].into_iter().take(inc) { b.t(&format!("{pad}{id} -1 0 0 501 502 0.0 0.0 {} 5.0e+02 0.0 0.0 9.0{nl}", cnum(500. * z, 10))); }
    for q in &e.q {
        b.t(pad); b.f(q.id.to_string()); b.t("  "); b.f(if q.out { 1 } else { 2 }.to_string()); b.t(" 1 2 503 0");
        // only the momenta of outgoing particles are parsed
        for x in [q.p[0], q.p[1], q.p[2], energy(q)] { b.t(" "); if q.out { b.f(num(x, d >> 2)) } else { b.t(&num(x, d >> 2)) } }
        b.t(&format!(" {} 0. 9.{nl}", num(q.m, 0)));
    }
    if d & 8 != 0 { b.t("#aMCatNLO 2 5 3 3 <not> a tag\n"); }
    if d & 16 != 0 { b.t("<rwgt>\n<wgt id='1001'> +1.0e+00 </wgt>\n</rwgt>\n"); }
    b.t("</event>");
    b.flush();
    b.segs
}
fn xml(e: &Ev, last: bool, shared: bool) -> Vec<Seg> {
    let mut b = B { segs: vec![], cur: vec![] };
    let d = e.deco;
    let nl = ["\n", "", "\r\n", "\n  "][(d >> 14) as usize % 4];
    b.t(["<se w=\"", "<se  w=\""][(d >> 16) as usize % 2]);
    b.w(0, num(e.w[0], d >> 2));
    b.t("\" muR=\"91.16253934\" muF=\"91.16253934\">"); b.t(nl);
    for (id, z) in [(21, 1.), (-2, -1.)] { b.t("<p id=\""); b.f("1".into()); b.t(&format!(",{id}\"> 500,0,0,{} </p>{nl}", 500. * z)); }
    for q in &e.q {
        b.t("<p id=\""); b.f(if q.out { 0 } else { 2 }.to_string());
        b.t(",");
        if q.out { b.f(q.id.to_string()) } else { b.t(&q.id.to_string()) }
        b.t("\"> ");
        for (k, x) in [energy(q), q.p[0], q.p[1], q.p[2]].iter().enumerate() { if k > 0 { b.t(","); } let s = num(*x, d >> 2); if q.out { b.f(s) } else { b.t(&s) } }
        b.t(" </p>"); b.t(nl);
    }
    if d & 8 != 0 { b.t("<rw ch=\"12\"> 0.8893243414,0.05144448245,-0.0002369763508 </rw>"); b.t(nl); }
    b.t("</se>"); b.t(nl);
    // several subevents may share one event
    if last { b.t("</e>\n") } else if !shared || d & 16 != 0 { b.t("</e>\n<e>\n") }
    b.flush();
    b.segs
}
impl Text {
    pub fn raw(&self) -> Vec<u8> {
        let mut v = self.header.clone();
        for r in &self.recs { push_rec(&mut v, r); }
        v.extend_from_slice(&self.footer);
        v
    }
}
pub fn push_rec(v: &mut Vec<u8>, r: &[Seg]) { for s in r { match s { Seg::T(t) => v.extend_from_slice(t), Seg::W(_, s) | Seg::F(s) => v.extend_from_slice(s.as_bytes()) } } }

pub fn compress(data: &[u8], comp: u8) -> Vec<u8> {
    match comp {
        1 => { let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6)); e.write_all(data).unwrap(); e.finish().unwrap() }
        2 => { let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::best()); e.write_all(data).unwrap(); e.finish().unwrap() }
        3 => zstd::encode_all(data, 3).unwrap(),
        4 => { let mut e = lz4::EncoderBuilder::new().build(vec![]).unwrap(); e.write_all(data).unwrap(); let (v, r) = e.finish(); r.unwrap(); v }
        _ => data.to_vec(),
    }
}
/// several compressed streams one after the other, as parallel compressors and `cat` produce them
pub fn compress_members(data: &[u8], comp: u8, n: u8) -> Vec<u8> {
    if n < 2 || comp == 0 || comp == 4 || data.len() < n as usize { return compress(data, comp); }
    let l = data.len().div_ceil(n as usize);
    data.chunks(l).flat_map(|c| compress(c, comp)).collect()
}
/// complete decoding, nothing after the end
pub fn decompress(data: &[u8], comp: u8) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    match comp {
        1 => { let mut d = flate2::bufread::GzDecoder::new(data); d.read_to_end(&mut v).map_err(|e| format!("gzip: {e}"))?; if !d.into_inner().is_empty() { return Err("gzip: data after the end".into()); } }
        2 => { let mut d = bzip2::bufread::BzDecoder::new(data); d.read_to_end(&mut v).map_err(|e| format!("bzip2: {e}"))?; if !d.into_inner().is_empty() { return Err("bzip2: data after the end".into()); } }
        3 => { let mut d = zstd::stream::read::Decoder::new(data).map_err(|e| e.to_string())?; d.read_to_end(&mut v).map_err(|e| format!("zstd: {e}"))?; }
        4 => {
            let mut d = lz4::Decoder::new(data).map_err(|e| e.to_string())?;
            d.read_to_end(&mut v).map_err(|e| format!("lz4: {e}"))?;
            let (rest, r) = d.finish();
            r.map_err(|e| format!("lz4: incomplete frame ({e})"))?;
            if !rest.is_empty() { return Err("lz4: data after the end".into()); }
        }
        _ => v = data.to_vec(),
    }
    Ok(v)
}
pub fn comp_kind(opt: &str) -> u8 { if opt.starts_with("gz") { 1 } else if opt.starts_with("bz") { 2 } else if opt.starts_with("zst") { 3 } else if opt.starts_with("lz4") { 4 } else { 0 } }

/// Read weights back from an output record that may differ from the input only there.
fn match_rec(r: &[Seg], d: &[u8], mut at: usize, nw: usize) -> Result<(usize, Vec<Option<f64>>), String> {
    let mut w = vec![None; nw];
    for s in r {
        match s {
            Seg::T(t) => { if !d[at.min(d.len())..].starts_with(t) { return Err(diff(t, &d[at.min(d.len())..])); } at += t.len(); }
            Seg::F(t) => { if !d[at.min(d.len())..].starts_with(t.as_bytes()) { return Err(diff(t.as_bytes(), &d[at.min(d.len())..])); } at += t.len(); }
            Seg::W(i, _) => {
                let rest = &d[at.min(d.len())..];
                let n = rest.iter().position(|c| c.is_ascii_whitespace() || matches!(c, b'"' | b'<')).unwrap_or(rest.len());
                let tok = std::str::from_utf8(&rest[..n]).unwrap_or("?");
                let v: f64 = tok.parse().map_err(|_| format!("weight entry {tok:?}"))?;
                w[*i] = Some(v);
                at += n;
            }
        }
    }
    Ok((at, w))
}
pub fn diff(want: &[u8], got: &[u8]) -> String {
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let s = |v: &[u8]| String::from_utf8_lossy(&v[n.saturating_sub(20).min(v.len())..(n + 30).min(v.len())]).into_owned();
    format!("expected ...{:?}, found ...{:?}", s(want), s(got))
}
/// Weights of all records of an output file, or why it is not that file.
pub fn read_output(t: &Text, nw: &[usize], d: &[u8]) -> Result<Vec<Vec<Option<f64>>>, (&'static str, String)> {
    if !d.starts_with(&t.header) { return Err(("header", format!("header differs: {}", diff(&t.header, d)))); }
    let mut at = t.header.len();
    let mut out = vec![];
    for (k, r) in t.recs.iter().enumerate() {
        if at >= d.len() { return Err(("missing_records", format!("output ends after {k} of {} records", t.recs.len()))); }
        let (n, w) = match_rec(r, d, at, nw[k]).map_err(|e| ("record", format!("record {k}: {e}")))?;
        at = n; out.push(w);
    }
    if d[at..] != t.footer[..] { return Err((if d.len() - at < t.footer.len() { "truncated" } else { "footer" }, format!("after the last record: {}", diff(&t.footer, &d[at..])))); }
    Ok(out)
}

// ---------------------------------------------------------------- generation
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    pub jalg: u8, pub jr: f64, pub jpt: f64,
    pub lep: Option<(u8, f64, f64)>, pub pho: Option<(f64, f64, f64)>, pub nu: bool, pub ptw: f64,
}
pub const ALGS: [&str; 3] = ["anti-kt", "kt", "Cambridge-Aachen"];
pub fn gen_opts(r: &mut Rng) -> Opts {
    Opts { jalg: r.below(3) as u8, jr: *r.pick(&[0.4, 0.3, 0.5]), jpt: *r.pick(&[5., 20.]),
        lep: if r.chance(40) { Some((r.below(3) as u8, 0.15, *r.pick(&[1., 5.]))) } else { None },
        pho: if r.chance(40) { Some((0.5, 0.2, *r.pick(&[5., 20.]))) } else { None },
        nu: r.chance(40), ptw: if r.chance(50) { 0. } else { r.f() * 3. } }
}
pub fn opt_args(o: &Opts, v: &mut Vec<String>) {
    v.extend(["-a".into(), ALGS[o.jalg as usize % 3].into(), "-R".into(), o.jr.to_string(), "-p".into(), o.jpt.to_string()]);
    if let Some((a, r, p)) = o.lep { v.extend(["--leptonalgorithm".into(), ALGS[a as usize % 3].into(), "--leptonradius".into(), r.to_string(), "--leptonpt".into(), p.to_string()]); }
    if let Some((e, r, p)) = o.pho { v.extend(["--photonefrac".into(), e.to_string(), "--photonradius".into(), r.to_string(), "--photonpt".into(), p.to_string()]); }
    if o.nu { v.push("--include-neutrinos".into()); }
    v.extend(["--ptweight".into(), o.ptw.to_string()]);
}
fn mom(pt: f64, y: f64, phi: f64) -> [f64; 3] { [pt * phi.cos(), pt * phi.sin(), pt * y.sinh()] }
/// one event; `base` shifts all its objects, so that events with different bases are far apart
pub fn gen_parts(r: &mut Rng, base: f64, simple: bool) -> Vec<Part> {
    let mut q = vec![];
    if r.chance(if simple { 3 } else { 8 }) {
        // nothing identified: soft jets, neutrinos or nothing at all
        if r.chance(50) { q.push(Part { id: 12, p: mom(30., 0.3, 1.), m: 0., out: true }); }
        if r.chance(50) { q.push(Part { id: 211, p: mom(0.5, 0.5, 2.), m: 0.14, out: true }); }
        if r.chance(30) { q.push(Part { id: 5, p: mom(50., 0.5, 2.), m: 4., out: false }); }
        return q;
    }
    let nobj = if simple { 1 } else { r.us(1, 4) };
    let mut slots: Vec<u64> = (0..24).collect();
    r.shuffle(&mut slots);
    for k in 0..nobj {
        let s = slots[k];
        let (y, phi) = ((s / 8) as f64 * 2. - 2. + r.f() * 0.3, (s % 8) as f64 * 0.785 + r.f() * 0.1);
        let pt = 25. + r.f() * 60. + if k == 0 { base } else { 0. };
        let kind = if simple { 0 } else { r.below(10) };
        let near = |r: &mut Rng, id: i32, f: f64, m: f64| Part { id, p: mom(pt * f, y + (r.f() - 0.5) * 0.1, phi + (r.f() - 0.5) * 0.1), m, out: true };
        match kind {
            0..=4 => for _ in 0..r.us(1, if simple { 1 } else { 3 }) { let id = *r.pick(&[1, -2, 21, 5, 211, -211, 2212, 130, 111]); q.push(near(r, id, 1., 0.)); },
            5 | 6 => { let id = *r.pick(&[11, -11, 13, -13]); q.push(near(r, id, 1., 0.)); if r.chance(50) { q.push(near(r, 22, 0.2, 0.)); } }
            7 => { q.push(near(r, 22, 1., 0.)); if r.chance(30) { q.push(near(r, 211, 0.3, 0.)); } }
            8 => { let id = *r.pick(&[12, -14, 16]); q.push(near(r, id, 1., 0.)) }
            _ => { let (id, m) = *r.pick(&[(25, 125.), (24, 80.4), (-24, 80.4), (6, 173.), (15, 1.78)]); q.push(near(r, id, 1., m)) }
        }
        if r.chance(15) { q.push(Part { id: *r.pick(&[23, 5, 21]), p: mom(pt, y, phi), m: 1., out: false }); }
    }
    r.shuffle(&mut q);
    q
}

// ---------------------------------------------------------------- reference clustering
type P4 = [f64; 4];
fn pt2(p: &P4) -> f64 { p[1] * p[1] + p[2] * p[2] }
fn rap(p: &P4) -> f64 { 0.5 * ((p[0] + p[3]) / (p[0] - p[3])).ln() }
fn dr2(a: &P4, b: &P4) -> f64 {
    let mut dp = (a[2].atan2(a[1]) - b[2].atan2(b[1])).abs();
    if dp > std::f64::consts::PI { dp = 2. * std::f64::consts::PI - dp; }
    (rap(a) - rap(b)).powi(2) + dp * dp
}
fn recombine(mut v: Vec<P4>, alg: u8, r: f64, minpt: f64) -> Vec<P4> {
    let f = |p: &P4| match alg { 0 => 1. / pt2(p), 1 => pt2(p), _ => 1. };
    let mut out = vec![];
    while !v.is_empty() {
        let (mut best, mut bi, mut bj) = (f64::INFINITY, 0, usize::MAX);
        for i in 0..v.len() {
            if f(&v[i]) < best { best = f(&v[i]); bi = i; bj = usize::MAX; }
            for j in 0..i { let d = f(&v[i]).min(f(&v[j])) * dr2(&v[i], &v[j]) / (r * r); if d < best { best = d; bi = i; bj = j; } }
        }
        if bj == usize::MAX { let p = v.swap_remove(bi); if pt2(&p) > minpt * minpt { out.push(p); } }
        else { let a = v[bi]; for k in 0..4 { v[bj][k] += a[k]; } v.swap_remove(bi); }
    }
    out
}
fn hadron(id: i32) -> bool { let a = id.abs(); a == 211 || a == 111 || a == 2212 || a == 130 || a == 310 || a == 321 || a == 2112 }
/// the objects events are compared by
pub fn objects(e: &Ev, o: &Opts) -> Vec<(i32, [f64; 3])> {
    let out: Vec<(i32, P4)> = e.q.iter().filter(|q| q.out).map(|q| (q.id, [energy(q), q.p[0], q.p[1], q.p[2]])).collect();
    let (mut jets, mut leps, mut res) = (vec![], vec![], vec![]);
    for (id, p) in &out {
        let a = id.abs();
        let neutrino = matches!(a, 12 | 14 | 16);
        if *id == 22 {
            let isolated = o.pho.is_some_and(|(ef, r, minpt)| {
                if pt2(p).sqrt() < minpt { return false; }
                let mut c = [0.; 4];
                for (i2, q) in &out { if !matches!(i2.abs(), 12 | 13 | 14 | 16) && dr2(p, q).sqrt() < r { for k in 0..4 { c[k] += q[k]; } } }
                for k in 0..4 { c[k] -= p[k]; }
                let et2 = c[0] * c[0] - c[3] * c[3];
                pt2(p).sqrt() > ef * et2.max(0.).sqrt()
            });
            if isolated { res.push((83, *p)) } else if o.lep.is_some() { leps.push(*p) } else { res.push((22, *p)) }
        } else if a <= 5 || *id == 21 || hadron(*id) { jets.push(*p) }
        else if (a == 11 || a == 13) && o.lep.is_some() { leps.push(*p) }
        else if !neutrino || o.nu { res.push((*id, *p)) }
    }
    for j in recombine(jets, o.jalg % 3, o.jr, o.jpt) { res.push((81, j)); }
    if let Some((a, r, p)) = o.lep { for j in recombine(leps, a % 3, r, p) { res.push((82, j)); } }
    res.into_iter().map(|(i, p)| (i, [p[1], p[2], p[3]])).collect()
}
/// reject what the reference cannot judge (only reached while minimising)
pub fn valid(e: &Ev) -> bool {
    let out: Vec<&Part> = e.q.iter().filter(|q| q.out).collect();
    out.iter().all(|q| { let p = [energy(q), q.p[0], q.p[1], q.p[2]]; q.p.iter().all(|x| x.is_finite()) && pt2(&p) > 1e-4 && rap(&p).abs() < 8. && q.id != 0 })
}
