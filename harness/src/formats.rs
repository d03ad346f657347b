//! Random event files in all formats, with everything known about their content.
use crate::common::*;
use std::path::{Path, PathBuf};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Fmt { Hep, Lhe, Xml }

#[derive(Clone, Debug)]
pub struct Part { pub id: i32, pub p: [f64; 4], pub out: bool }

/// an event record: `pre` + weights with separators + `post`
#[derive(Clone, Debug)]
pub struct Rec {
    pub pre: String,
    pub ws: Vec<String>,
    /// separators in front of all but the first weight
    pub seps: Vec<String>,
    pub post: String,
    pub names: Option<Vec<String>>,
    pub parts: Vec<Part>,
    pub mev: bool,
}

impl Rec {
    pub fn text(&self) -> String {
        let mut s = self.pre.clone();
        for (i, w) in self.ws.iter().enumerate() {
            if i > 0 { s += &self.seps[i - 1]; }
            s += w;
        }
        s + &self.post
    }
    pub fn weight(&self, i: usize) -> f64 { self.ws[i].parse().unwrap() }
    /// positions of the weights that are read for the given names
    pub fn positions(&self, names: &[String]) -> Option<Vec<usize>> {
        if names.is_empty() { return Some(vec![0]); }
        let have = self.names.as_ref()?;
        if names.iter().any(|n| !have.contains(n)) { return None; }
        let mut p = vec![0];
        p.extend((0..have.len()).filter(|&i| names.contains(&have[i])));
        Some(p)
    }
    /// weights and outgoing particles an event made from this record has
    pub fn check_event(&self, e: &Event, weights: &[f64]) -> Result<(), String> {
        let w = weights_of(e);
        ensure(w == weights, || format!("weights of the event are {w:?}, expected {weights:?}"))?;
        let s = if self.mev { 1e-3 } else { 1. };
        let mut want: Vec<(i32, [f64; 4])> = self.parts.iter().filter(|p| p.out)
            .map(|p| (p.id, [p.p[0] * s, p.p[1] * s, p.p[2] * s, p.p[3] * s])).collect();
        let mut got: Vec<(i32, [f64; 4])> = vec![];
        for (t, ps) in e.outgoing() {
            for p in ps.iter() {
                got.push((t.id(), [p[0].into(), p[1].into(), p[2].into(), p[3].into()]));
            }
        }
        ensure(got.len() == want.len(), || format!("event has {} outgoing particles, the record {}", got.len(), want.len()))?;
        let key = |a: &(i32, [f64; 4]), b: &(i32, [f64; 4])| a.partial_cmp(b).unwrap();
        want.sort_by(key);
        got.sort_by(key);
        for (g, w) in got.iter().zip(&want) {
            ensure(g.0 == w.0 && (0..4).all(|i| (g.1[i] - w.1[i]).abs() <= 1e-14 * w.1[i].abs()),
                || format!("outgoing particle {g:?}, expected {w:?}"))?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct TFile {
    pub fmt: Fmt,
    pub header: String,
    pub recs: Vec<Rec>,
    pub footer: String,
    /// name and number of events of a STRIPPER file
    pub contrib: (String, u64),
}

impl TFile {
    pub fn text(&self) -> String {
        let mut s = self.header.clone();
        for r in &self.recs { s += &r.text(); }
        s + &self.footer
    }
    /// text of a record as it is read (the last one includes the footer in some formats)
    pub fn record(&self, i: usize) -> String {
        let mut s = self.recs[i].text();
        if i + 1 == self.recs.len() && self.fmt != Fmt::Lhe { s += &self.footer; }
        s
    }
    /// post part of record `i` in the output
    pub fn post(&self, i: usize) -> String {
        let mut s = self.recs[i].post.clone();
        if i + 1 == self.recs.len() && self.fmt != Fmt::Lhe { s += &self.footer; }
        s
    }
}

pub fn num(r: &mut Rng) -> String {
    let x = match r.below(8) {
        0 => r.range(-20, 20) as f64,
        1 => r.range(-2000, 2000) as f64 / 8.,
        2 => (r.f() - 0.5) * 1e-12,
        3 => (r.f() - 0.5) * 1e15,
        4 => 0.,
        5 => f64::from_bits(r.next() % (0x7fe << 52)),
        _ => 300. * (r.f() - 0.5),
    };
    fmt_num(r, x)
}

/// a number whose products stay finite
pub fn mom_num(r: &mut Rng) -> String {
    let x = match r.below(6) {
        0 => r.range(-20, 20) as f64,
        1 => r.range(-2000, 2000) as f64 / 8.,
        2 => (r.f() - 0.5) * 1e-9,
        3 => (r.f() - 0.5) * 1e9,
        _ => 300. * (r.f() - 0.5),
    };
    fmt_num(r, x)
}

/// only physical momenta
pub static PHYSICAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn momentum(r: &mut Rng) -> Vec<String> {
    if PHYSICAL.load(std::sync::atomic::Ordering::Relaxed) {
        real_mom(r).iter().map(|&x| if r.chance(0.5) { format!("{x:e}") } else { format!("{x}") }).collect()
    } else {
        (0..4).map(|_| mom_num(r)).collect()
    }
}

fn fmt_num(r: &mut Rng, x: f64) -> String {
    match r.below(8) {
        0 => format!("{x:e}"),
        1 => format!("{x:.16e}"),
        2 => format!("{x:E}"),
        3 if x >= 0. => format!("+{x}"),
        4 => format!("{x:.3}"),
        5 => format!("{:.10E}", x),
        _ => format!("{x}"),
    }
}

fn word(r: &mut Rng) -> String {
    let cs: Vec<char> = "abEENNPUVFHC019.-_+é".chars().collect();
    (0..1 + r.below(5)).map(|_| *r.pick(&cs)).collect()
}

pub fn wname(r: &mut Rng) -> String {
    let pool = ["Weight", "MUR1_MUF1", "MUR2", "0", "E", "N", "a b", " x", "nominal", "ü", "P 1", ""];
    (*r.pick(&pool)).to_string()
}

const IDS: [i32; 14] = [1, -1, 2, 21, 11, -11, 22, 25, 2212, 211, 6, 5, -24, 1000022];

fn sp(r: &mut Rng, odd: bool) -> String {
    if odd && r.chance(0.15) { (if r.chance(0.8) { "  " } else { " \t" }).to_string() } else { " ".to_string() }
}

pub fn hep_particle_line(r: &mut Rng, p: &mut Part, odd: bool) -> String {
    let c = momentum(r);
    for i in 0..4 { p.p[i] = c[i].parse().unwrap(); }
    let status = if p.out { 1 } else { *r.pick(&[0, 2, 3, 4, 11, 21, -1, 10, 101]) };
    let mut s = String::from("P");
    let bc = r.range(1, 900).to_string();
    let m = num(r);
    for t in [bc, p.id.to_string(), c[1].clone(), c[2].clone(), c[3].clone(), c[0].clone(), m, status.to_string()] {
        s += &sp(r, odd);
        s += &t;
    }
    match r.below(3) {
        0 => {}
        1 => s += " 0 0 -3 0",
        _ => s += &format!(" {} {} -{} 1 1 501", num(r), num(r), r.below(9)),
    }
    s
}

/// number of weights `nw`; with names for all of them if `names`
pub fn hep_rec(r: &mut Rng, nw: usize, names: Option<Vec<String>>, odd: bool) -> Rec {
    let mut pre = String::from("E");
    for i in 0..10 {
        pre += &sp(r, odd);
        pre += &match i {
            0 => r.range(0, 100000).to_string(),
            2..=4 => num(r),
            5 if r.chance(0.2) => word(r),
            _ => r.range(-5, 50).to_string(),
        };
    }
    let nr = if r.chance(0.5) { 0 } else { r.below(4) };
    pre += &sp(r, odd);
    pre += &nr.to_string();
    for _ in 0..nr {
        pre += &sp(r, odd);
        pre += &if r.chance(0.3) { word(r) } else { r.range(0, 1 << 30).to_string() };
    }
    pre += &sp(r, odd);
    pre += &nw.to_string();
    pre += &sp(r, odd);
    let ws: Vec<String> = (0..nw).map(|_| num(r)).collect();
    let seps = (1..nw).map(|_| sp(r, odd)).collect();
    let mev = r.chance(0.4);
    let mut lines: Vec<String> = vec![];
    if mev { lines.push("U MEV MM".to_string()); }
    else if r.chance(0.6) { lines.push(format!("U GEV {}", if r.chance(0.5) { "MM" } else { "CM" })); }
    if let Some(names) = &names {
        let mut s = format!("N{}{}", sp(r, odd), names.len());
        for n in names { s += &sp(r, odd); s += &format!("\"{n}\""); }
        lines.push(s);
    }
    if r.chance(0.4) { lines.push("C 1.5 0.25".into()); }
    if r.chance(0.3) { lines.push("H 1 2 3 4 5".into()); }
    if r.chance(0.4) { lines.push("F 1 2 0.1 0.2 91 1 2 0 0".into()); }
    let np = r.below(7);
    let mut parts = vec![];
    for _ in 0..np {
        if r.chance(0.4) { lines.push(format!("V -{} 0 0 0 0 0 0 2 0", r.below(9))); }
        let mut p = Part { id: *r.pick(&IDS), p: [0.; 4], out: r.chance(0.6) };
        lines.push(hep_particle_line(r, &mut p, odd));
        parts.push(p);
    }
    if r.chance(0.3) { r.shuffle(&mut lines); }
    let mut post = String::from("\n");
    for l in lines { post += &l; post += "\n"; }
    Rec { pre, ws, seps, post, names, parts, mev }
}

pub fn hep_file(r: &mut Rng, n: usize, nw: usize, names: Option<Vec<String>>, odd: bool) -> TFile {
    let header = match r.below(3) {
        0 => "\nHepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n".to_string(),
        1 => "HepMC::Version 2.06.11 E\nsome EE comment\nHepMC::IO_GenEvent-START_EVENT_LISTING\n".to_string(),
        _ => "HepMC::IO_GenEvent-START_EVENT_LISTING\n".to_string(),
    };
    let footer = if r.chance(0.8) { "HepMC::IO_GenEvent-END_EVENT_LISTING\n".to_string() } else { String::new() };
    let recs = (0..n).map(|_| hep_rec(r, nw, names.clone(), odd)).collect();
    TFile { fmt: Fmt::Hep, header, recs, footer, contrib: Default::default() }
}

pub fn lhe_rec(r: &mut Rng) -> Rec {
    let np = r.below(6);
    let mut pre = "\n<event>\n".to_string();
    if r.chance(0.2) { pre = "\n\n <event attr=\"1\">\n".to_string(); }
    if r.chance(0.5) { pre += *r.pick(&[" ", "  ", "    "]); }
    pre += &np.to_string();
    pre += *r.pick(&[" ", "   "]);
    pre += &r.range(-3, 9999).to_string();
    pre += *r.pick(&[" ", "  ", "  \t"]);
    let ws = vec![num(r)];
    let mut post = format!(" {} {} {}\n", num(r), num(r), num(r));
    let mut parts = vec![];
    for _ in 0..np {
        let c = momentum(r);
        let mut p = Part { id: *r.pick(&IDS), p: [0.; 4], out: r.chance(0.6) };
        for i in 0..4 { p.p[i] = c[i].parse().unwrap(); }
        let st = if p.out { 1 } else { *r.pick(&[-1, 2, 3, -2, -9, 0, 11]) };
        if r.chance(0.5) { post += *r.pick(&[" ", "      "]); }
        post += &format!("{} {}  {} {} {} {} {} {}   {} {} {} 0. 9.\n", p.id, st, r.below(5), r.below(5), r.below(600), r.below(600), c[1], c[2], c[3], c[0], num(r));
        parts.push(p);
    }
    match r.below(4) {
        0 => post += "# comment 1 1 1 2 3 4\n",
        1 => post += "<mgrwt>\n<rscale> 1 0.5</rscale>\n</mgrwt>\n",
        2 => post += "  21  1 0 0 0 0 1. 2. 3. 4. 5. 0. 9.\n",
        _ => {}
    }
    post += "</event>";
    Rec { pre, ws, seps: vec![], post, names: None, parts, mev: false }
}

pub fn lhe_file(r: &mut Rng, n: usize) -> TFile {
    let mut header = "<LesHouchesEvents version=\"1.0\">\n".to_string();
    if r.chance(0.6) { header += "<!--\nsome <event> comment\n-->\n<header>\n a > b\n</header>\n"; }
    header += "<init>\n 2212 2212 6.5e3 6.5e3 0 0 1 1 -4 1\n 1. 2. 3. 1\n</init>";
    let recs = (0..n).map(|_| lhe_rec(r)).collect();
    TFile { fmt: Fmt::Lhe, header, recs, footer: "\n</LesHouchesEvents>\n".into(), contrib: Default::default() }
}

pub fn xml_rec(r: &mut Rng) -> Rec {
    let pre = format!("<se{}w=\"", if r.chance(0.2) { "  " } else { " " });
    let ws = vec![mom_num(r)];
    let mut post = format!("\" muR=\"{}\" muF=\"{}\">", mom_num(r), r.next());
    let mut parts = vec![];
    for _ in 0..r.below(6) {
        let c = momentum(r);
        let mut p = Part { id: *r.pick(&IDS), p: [0.; 4], out: r.chance(0.6) };
        for i in 0..4 { p.p[i] = c[i].parse().unwrap(); }
        let st = if p.out { 0 } else { *r.pick(&[1, 2, -1, 10]) };
        post += *r.pick(&["\n", "", " ", "\n  "]);
        post += &format!("<p id=\"{},{}\"> {},{},{},{} </p>", st, p.id, c[0], c[1], c[2], c[3]);
        parts.push(p);
    }
    if r.chance(0.5) { post += "\n<rw ch=\"12\"> 1,2.5,3 </rw>"; }
    post += "\n</se>";
    if r.chance(0.8) { post += "\n"; }
    Rec { pre, ws, seps: vec![], post, names: None, parts, mev: false }
}

pub fn xml_file(r: &mut Rng, n: usize, name: &str) -> TFile {
    let nev = 1 + r.below(50) as u64;
    let header = format!("{}<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Eventrecord nevents=\"{nev}\" nsubevents=\"{n}\" as=\"{}\" name=\"{name}\">\n",
        if r.chance(0.2) { "\n" } else { "" }, r.below(4));
    let recs = (0..n).map(|_| xml_rec(r)).collect();
    TFile { fmt: Fmt::Xml, header, recs, footer: "</Eventrecord>\n".into(), contrib: (name.into(), nev) }
}

pub fn normalization(name: &str, xs: f64) -> String {
    let sgn = if xs > 0. { "Pos" } else { "Neg" };
    format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>
<Normalization name=\"{name}\">
<!--
File generated with STRIPPER v0.1 for online data base
-->
<XSection>
 <XS{sgn}> 7.103,0.978277 </XS{sgn}>
 <MaxWeight{sgn}> 796475 </MaxWeight{sgn}>
 <TotalEvents{sgn}> 488338734 </TotalEvents{sgn}>
 <AcceptedEvents{sgn}> 493310 </AcceptedEvents{sgn}>
 <Factor{sgn}> 803.98,1.14468 </Factor{sgn}>
</XSection>
<Contribution name=\"{name}\">
  <xsection> {xs},0.978277</xsection>
  <rw>
    <rwentry> x1 </rwentry>
    <rwentry> log(muR**2) </rwentry>
  </rw>
</Contribution>
<NumberOfRejectedEvents> 0 , 100</NumberOfRejectedEvents>
</Normalization>
")
}

pub fn write(path: &Path, text: &[u8], gz: bool) {
    use std::io::Write;
    let f = std::fs::File::create(path).unwrap();
    if gz {
        let mut e = flate2::write::GzEncoder::new(f, flate2::Compression::new(3));
        e.write_all(text).unwrap();
        e.finish().unwrap();
    } else {
        let mut f = f;
        f.write_all(text).unwrap();
    }
}

/// how the weights in an output record have to look like
pub enum Want {
    /// as in the input, text unchanged
    Same,
    /// exactly this number
    Is(f64),
    /// this number up to rounding
    Near(f64),
}

/// Compare output record at the start of `out` with record `i` of the file, return what follows.
/// `strict`: spacing between weights has to be unchanged, too.
pub fn match_record<'a>(out: &'a str, f: &TFile, i: usize, want: &[Want], strict: bool) -> Result<&'a str, String> {
    let rec = &f.recs[i];
    let short = |s: &str| s.chars().take(300).collect::<String>();
    let pre = rec.pre.trim_end_matches([' ', '\t']);
    let rest = out.strip_prefix(pre).ok_or_else(|| format!("record {i}: part before the weights changed: `{}`, expected `{}`", short(out), short(pre)))?;
    let mut rest = rest;
    let mut presep = &rec.pre[pre.len()..];
    for (k, w) in want.iter().enumerate() {
        if k > 0 { presep = &rec.seps[k - 1]; }
        if strict {
            rest = rest.strip_prefix(presep).ok_or_else(|| format!("record {i}: spacing in front of weight {k} changed: `{}`", short(out)))?;
        } else {
            let t = rest.trim_start_matches([' ', '\t']);
            ensure(t.len() < rest.len() || presep.is_empty(), || format!("record {i}: no space in front of weight {k}: `{}`", short(out)))?;
            rest = t;
        }
        let end = rest.find(|c: char| c.is_ascii_whitespace() || c == '"').unwrap_or(rest.len());
        let tok = &rest[..end];
        rest = &rest[end..];
        match w {
            Want::Same => ensure(tok == rec.ws[k], || format!("record {i}: weight {k} is `{tok}`, expected `{}` as before", rec.ws[k]))?,
            Want::Is(x) => ensure(tok.parse::<f64>().ok() == Some(*x), || format!("record {i}: weight {k} is `{tok}`, expected {x}"))?,
            Want::Near(x) => ensure(tok.parse::<f64>().map(|t| close(t, *x, *x)).unwrap_or(false), || format!("record {i}: weight {k} is `{tok}`, expected {x}"))?,
        }
    }
    let post = f.post(i);
    rest.strip_prefix(post.as_str()).ok_or_else(|| format!("record {i}: part after the weights changed: `{}`, expected `{}`", short(rest), short(&post)))
}

pub fn dir() -> tempfile::TempDir { tempfile::tempdir().unwrap() }

pub fn read_out(p: &PathBuf) -> Result<String, String> {
    let b = std::fs::read(p).map_err(|e| format!("{p:?}: {e}"))?;
    String::from_utf8(b).map_err(|e| format!("{p:?}: {e}"))
}
