//! C12, C13, C14: reading and updating event files
use crate::common::*;
use crate::formats::*;
use cres::compression::Compression;
use cres::hepmc2::HepMCParser;
use cres::io::*;
use cres::traits::{Rewind, TryConvert, UpdateWeights};
use std::path::PathBuf;

pub fn es<T, E: std::error::Error>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| {
        let mut s = format!("{what} failed: {e}");
        let mut src = e.source();
        while let Some(e) = src { s += &format!(": {e}"); src = e.source(); }
        s
    })
}

pub fn converter(names: &[String]) -> Converter {
    #[cfg(feature = "multiweight")]
    { Converter::with_weights(names.to_vec()) }
    #[cfg(not(feature = "multiweight"))]
    { let _ = names; Converter::new() }
}

fn new_weights(r: &mut Rng, n: usize) -> Vec<f64> {
    let n = if MULTI { n } else { n.min(1) };
    (0..n).map(|_| { let s = num(r); s.parse::<f64>().unwrap() }).collect()
}

fn mkw(w: &[f64]) -> Weights {
    if w.is_empty() { Weights::default() } else { mkweights(w) }
}

fn pick_names(r: &mut Rng, names: &[String], k: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for _ in 0..k {
        let n = r.pick(names).clone();
        if !v.contains(&n) { v.push(n); }
    }
    v
}

fn compr(r: &mut Rng) -> (Option<Compression>, &'static str) {
    match r.below(9) {
        0 => (Some(Compression::Gzip(r.below(10) as u8)), "gz"),
        1 => (Some(Compression::Bzip2), "bz2"),
        2 => (Some(Compression::Zstd(r.below(20) as u8)), "zst"),
        3 => (Some(Compression::Lz4(r.below(17) as u8)), "lz4"),
        _ => (None, ""),
    }
}

/// content of a possibly compressed output, by tools independent of cres
pub fn out_text(p: &PathBuf, kind: &str) -> Result<String, String> {
    let raw = std::fs::read(p).map_err(|e| format!("{p:?}: {e}"))?;
    let mut b = vec![];
    use std::io::Read;
    let res = match kind {
        "gz" => flate2::read::GzDecoder::new(&raw[..]).read_to_end(&mut b),
        "bz2" => bzip2::read::BzDecoder::new(&raw[..]).read_to_end(&mut b),
        "zst" => zstd::stream::read::Decoder::new(&raw[..]).and_then(|mut d| d.read_to_end(&mut b)),
        "lz4" => {
            // a complete frame ends with an end mark
            lz4::Decoder::new(&raw[..]).and_then(|mut d| {
                let n = d.read_to_end(&mut b)?;
                d.finish().1?;
                Ok(n)
            })
        }
        _ => { b = raw.clone(); Ok(0) }
    };
    res.map_err(|e| format!("output {p:?} is not a complete {kind} stream: {e}"))?;
    String::from_utf8(b).map_err(|e| format!("{p:?}: {e}"))
}

struct Setup {
    files: Vec<TFile>,
    names: Vec<String>,
    /// factor between weights in the file and weights read
    scale: Vec<f64>,
    ins: Vec<PathBuf>,
    outs: Vec<PathBuf>,
    norms: Vec<PathBuf>,
    kind: &'static str,
    comp: Option<Compression>,
    _dir: tempfile::TempDir,
    offset: Vec<usize>,
    total: usize,
}

impl Setup {
    fn new(r: &mut Rng, files: Vec<TFile>, names: Vec<String>, comp: (Option<Compression>, &'static str)) -> Self {
        let d = dir();
        let (mut ins, mut outs, mut norms, mut offset) = (vec![], vec![], vec![], vec![]);
        let mut total = 0;
        for (i, f) in files.iter().enumerate() {
            let p = d.path().join(format!("in{i}.dat"));
            write(&p, f.text().as_bytes(), r.chance(0.15));
            ins.push(p);
            outs.push(d.path().join(format!("out{i}.dat")));
            offset.push(total);
            total += f.recs.len();
        }
        let mut scale = vec![1.; files.len()];
        let mut seen: Vec<String> = vec![];
        for f in &files {
            if f.fmt != Fmt::Xml || seen.contains(&f.contrib.0) { continue; }
            let name = f.contrib.0.clone();
            let xs = *r.pick(&[1., 2.5, -0.5, 1e-3, 784.25]);
            let n: u64 = files.iter().filter(|g| g.contrib.0 == name).map(|g| g.contrib.1).sum();
            for (i, g) in files.iter().enumerate() {
                if g.contrib.0 == name { scale[i] = xs / n as f64; }
            }
            let p = d.path().join(format!("norm{}.xml", seen.len()));
            write(&p, normalization(&name, xs).as_bytes(), false);
            norms.push(p);
            seen.push(name);
        }
        Setup { files, names, scale, ins, outs, norms, kind: comp.1, comp: comp.0, _dir: d, offset, total }
    }

    fn open(&self, norm_pos: usize) -> Result<CombinedFileIO, String> {
        let mut b = IOBuilder::default();
        b.compression(self.comp).weight_names(if MULTI { self.names.clone() } else { vec![] });
        let mut all: Vec<(PathBuf, PathBuf)> = self.ins.iter().cloned().zip(self.outs.iter().cloned()).collect();
        for n in &self.norms {
            let at = norm_pos % (all.len() + 1);
            all.insert(at, (n.clone(), n.with_extension("unused")));
        }
        es("opening", b.build_from_files_iter(all))
    }

    fn locate(&self, k: usize) -> (usize, usize) {
        let f = (0..self.files.len()).filter(|&i| self.offset[i] <= k && k < self.offset[i] + self.files[i].recs.len()).last().unwrap();
        (f, k - self.offset[f])
    }

    /// does the record read have the content of record `k`?
    fn check_read(&self, got: EventRecord, k: usize) -> Result<(), String> {
        let (f, i) = self.locate(k);
        self.check_record(got, k, f, i, self.scale[f])
    }

    /// each input read on its own, from the start, after rewinding somewhere, and again
    fn check_inputs(&self, at: usize) -> Result<(), String> {
        for (f, file) in self.files.iter().enumerate() {
            let n = file.recs.len();
            let mut rd = es("opening an input", FileReader::try_new(self.ins[f].clone()))?;
            for m in [at % (n + 1), n + 2, n + 2] {
                for i in 0..m {
                    self.check_hint(&rd, n.saturating_sub(i))?;
                    match rd.next() {
                        Some(rec) => {
                            ensure(i < n, || format!("record read after the {n} of file {f}"))?;
                            self.check_record(es("reading an input", rec)?, i, f, i, 1.)?;
                        }
                        None => ensure(i >= n, || format!("file {f} ends after {i} of {n} records"))?,
                    }
                }
                self.check_hint(&rd, n.saturating_sub(m))?;
                es("rewinding an input", rd.rewind())?;
            }
        }
        Ok(())
    }

    fn check_record(&self, got: EventRecord, k: usize, f: usize, i: usize, scale: f64) -> Result<(), String> {
        let file = &self.files[f];
        let text: String = match (got, file.fmt) {
            (EventRecord::HepMC(s), Fmt::Hep) => s,
            #[cfg(feature = "lhef")]
            (EventRecord::LHEF(s), Fmt::Lhe) => s,
            #[cfg(feature = "stripper-xml")]
            (EventRecord::StripperXml(s), Fmt::Xml) => s,
            (o, _) => return Err(format!("record {k} has the wrong format: {o:?}")),
        };
        if file.fmt == Fmt::Xml {
            let w = file.recs[i].weight(0) * scale;
            let rest = match_record(&text, file, i, &[Want::Near(w)], true).map_err(|e| format!("record {k} of the stream: {e}"))?;
            ensure(rest.is_empty(), || format!("record {k} of the stream is followed by `{rest}`"))
        } else {
            ensure(text == file.record(i), || format!("record {k} of the stream (record {i} of file {f}) is read as `{text}`, expected `{}`", file.record(i)))
        }
    }

    fn check_hint<I: Iterator>(&self, io: &I, left: usize) -> Result<(), String> {
        let (lo, hi) = io.size_hint();
        ensure(lo <= left && hi.map(|h| left <= h).unwrap_or(true), || format!("size hint is ({lo}, {hi:?}) with {left} records left"))
    }

    /// outputs after the first weights were updated and the update was finished
    fn check_outputs(&self, ws: &[Vec<f64>], skipped: &[bool]) -> Result<(), String> {
        for f in 0..self.files.len() {
            let file = &self.files[f];
            let out = out_text(&self.outs[f], self.kind).map_err(|e| format!("file {f}: {e}"))?;
            let mut rest = out.strip_prefix(file.header.as_str()).ok_or_else(|| format!("file {f}: output does not start with the header: `{}`", out.chars().take(300).collect::<String>()))?;
            for i in 0..file.recs.len() {
                let k = self.offset[f] + i;
                if k >= ws.len() { break; }
                if skipped[k] { continue; }
                let rec = &file.recs[i];
                let mut want: Vec<Want> = rec.ws.iter().map(|_| Want::Same).collect();
                if !ws[k].is_empty() {
                    let names: &[String] = if MULTI && file.fmt == Fmt::Hep { &self.names } else { &[] };
                    for (j, p) in rec.positions(names).unwrap().iter().enumerate() {
                        if j >= ws[k].len() { break; }
                        // a name that refers to the central weight again wins
                        want[*p] = if file.fmt == Fmt::Xml { Want::Near(ws[k][j] / self.scale[f]) } else { Want::Is(ws[k][j]) };
                    }
                }
                let strict = self.names.is_empty() || ws[k].is_empty() || file.fmt != Fmt::Hep || !MULTI;
                rest = match_record(rest, file, i, &want, strict).map_err(|e| format!("file {f}, {e}"))?;
            }
            // the last record of HepMC and STRIPPER files carries the footer
            let footer = if file.fmt == Fmt::Lhe { file.footer.as_str() } else { "" };
            let all = if file.recs.is_empty() && file.fmt != Fmt::Lhe { file.footer.as_str() } else { footer };
            ensure(rest == all, || format!("file {f}: output ends with `{}`, expected `{all}`", rest.chars().take(300).collect::<String>()))?;
        }
        Ok(())
    }

    /// reading the outputs back gives exactly the weights written
    fn read_back(&self, ws: &[Vec<f64>]) -> Result<(), String> {
        for f in 0..self.files.len() {
            let file = &self.files[f];
            if file.fmt == Fmt::Xml { continue; }
            let reader = es("opening the output", cres::io::FileReader::try_new(self.outs[f].clone()))?;
            let conv = converter(if file.fmt == Fmt::Hep { &self.names } else { &[] });
            let mut n = 0;
            for rec in reader {
                let k = self.offset[f] + n;
                ensure(k < ws.len() && n < file.recs.len(), || format!("output {f} has more records than were updated"))?;
                let e = es("parsing the output", conv.try_convert(es("reading the output", rec)?))?;
                let orig: Vec<f64> = file.recs[n].positions(if MULTI && file.fmt == Fmt::Hep { &self.names } else { &[] }).unwrap().iter().map(|&p| file.recs[n].weight(p)).collect();
                let mut want = if ws[k].is_empty() { orig } else { ws[k].clone() };
                if !MULTI { want.truncate(1); }
                let dup = file.recs[n].positions(if MULTI && file.fmt == Fmt::Hep { &self.names } else { &[] }).unwrap()[1..].contains(&0);
                let mut w = weights_of(&e);
                if dup { want[0] = w[0]; }
                if w.len() > want.len() { w.truncate(want.len()); }
                ensure(w == want, || format!("output {f}, record {n}: read back weights {w:?}, written {want:?}"))?;
                n += 1;
            }
            let want = file.recs.len().min(ws.len().saturating_sub(self.offset[f]));
            ensure(n == want, || format!("output {f} has {n} records, expected {want}"))?;
        }
        Ok(())
    }
}

fn random_files(r: &mut Rng, nfiles: usize, fmts: &[Fmt], nw: usize, wnames: &Option<Vec<String>>, maxrec: usize) -> Vec<TFile> {
    (0..nfiles).map(|_| {
        let n = if r.chance(0.25) { 0 } else { r.below(maxrec + 1) };
        let odd = r.chance(0.3);
        match *r.pick(fmts) {
            Fmt::Hep => hep_file(r, n, nw, wnames.clone(), odd),
            Fmt::Lhe => lhe_file(r, n),
            Fmt::Xml => { let nm = *r.pick(&["RR", "B", "RV"]); xml_file(r, n, nm) }
        }
    }).collect()
}

pub fn c12(c: &mut Ctx) {
    for _ in 0..c.n(2500) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let seed = r.clone().next();
        let nfiles = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
        let fmts: Vec<Fmt> = match r.below(4) {
            0 => vec![Fmt::Hep],
            1 => vec![Fmt::Lhe],
            2 if cfg!(feature = "stripper-xml") => vec![Fmt::Xml],
            _ => if cfg!(feature = "stripper-xml") { vec![Fmt::Hep, Fmt::Lhe, Fmt::Xml] } else { vec![Fmt::Hep, Fmt::Lhe] },
        };
        let nw = if fmts == [Fmt::Hep] { 1 + r.below(4) } else { 1 };
        let wnames: Option<Vec<String>> = if nw > 1 || r.chance(0.3) { Some((0..nw).map(|i| format!("w{i}")).collect()) } else { None };
        let names = if MULTI && nw > 1 && r.chance(0.6) { pick_names(&mut r, &wnames.as_ref().unwrap()[1..], 2) } else { vec![] };
        let files = random_files(&mut r, nfiles, &fmts, nw, &wnames, 5);
        let comp = if r.chance(0.3) { compr(&mut r) } else { (None, "") };
        let s = Setup::new(&mut r, files, names, comp);
        let sizes: Vec<(Fmt, usize)> = s.files.iter().map(|f| (f.fmt, f.recs.len())).collect();
        let mut ops: Vec<(usize, usize)> = vec![];
        for _ in 0..1 + r.below(4) {
            ops.push((r.below(6), r.below(s.total + 4)));
        }
        let nwt = 1 + s.names.len();
        let np = r.below(5);
        let desc = format!("files {sizes:?}, weights updated {nwt}, output {}, operations {ops:?}, case seed {seed}", s.kind);
        c.case(&desc, || {
            let total = s.total;
            let mut io = s.open(np)?;
            let mut read = 0;
            let mut log = String::new();
            let mut known = true; // position known?
            let go = |io: &mut CombinedFileIO, read: &mut usize, known: &mut bool, op: usize, k: usize, log: &mut String, r: &mut Rng| -> Result<Option<(Vec<Vec<f64>>, Vec<bool>)>, String> {
                if !*known && op < 2 {
                    es("rewinding", io.rewind())?;
                    *read = 0;
                    *known = true;
                    *log += "rewind ";
                }
                match op {
                    0 => {
                        // read some records
                        *log += &format!("read {k} ");
                        for _ in 0..k {
                            s.check_hint(io, total - *read)?;
                            match io.next() {
                                Some(rec) => {
                                    ensure(*read < total, || "record read after the last one".into())?;
                                    s.check_read(es("reading", rec)?, *read)?;
                                    *read += 1;
                                }
                                None => ensure(*read == total, || format!("stream ends after {read} of {total} records"))?,
                            }
                        }
                        s.check_hint(io, total - *read)?;
                        Ok(None)
                    }
                    1 => {
                        *log += "rewind ";
                        es("rewinding", io.rewind())?;
                        *read = 0;
                        s.check_hint(io, total)?;
                        Ok(None)
                    }
                    2 | 3 => {
                        *log += &format!("update_all {k} ");
                        let ws: Vec<Vec<f64>> = (0..k).map(|_| if MULTI && r.chance(0.1) { vec![] } else { new_weights(r, nwt) }).collect();
                        let w: Vec<Weights> = ws.iter().map(|w| mkw(w)).collect();
                        let n = es("updating all weights", io.update_all_weights(&w))?;
                        ensure(n == k.min(total), || format!("updating {k} weights of {total} records reports {n} records"))?;
                        *known = false;
                        if k >= total { s.check_hint(io, 0)?; }
                        Ok(Some((ws, vec![false; k])))
                    }
                    _ => {
                        es("rewinding", io.rewind())?;
                        *read = 0;
                        *log += &format!("rewind update_next {k} times, finish ");
                        let mut ws = vec![];
                        let mut skipped = vec![];
                        for i in 0..k {
                            // skipping within a file
                            if op == 5 && i < total && s.locate(i).1 > 0 && r.chance(0.2) {
                                let rec = io.next().ok_or("stream ends early")?;
                                s.check_read(es("reading", rec)?, i)?;
                                ws.push(vec![]);
                                skipped.push(true);
                                continue;
                            }
                            let w = if MULTI && r.chance(0.1) { vec![] } else { new_weights(r, nwt) };
                            let more = es("updating the next weight", io.update_next_weights(&mkw(&w)))?;
                            ensure(more == (i < total), || format!("update of weight {i} of {total} records gives {more}"))?;
                            ws.push(w);
                            skipped.push(false);
                            s.check_hint(io, total.saturating_sub(i + 1))?;
                        }
                        es("finishing", io.finish_weight_update())?;
                        *known = false;
                        Ok(Some((ws, skipped)))
                    }
                }
            };
            for (j, &(op, k)) in ops.iter().enumerate() {
                let upd = go(&mut io, &mut read, &mut known, op, k, &mut log, &mut r).map_err(|e| format!("{e} (after: {log})"))?;
                if let Some((ws, skipped)) = upd {
                    // outputs are complete once the object is gone; continue with a new one
                    drop(io);
                    s.check_outputs(&ws, &skipped).map_err(|e| format!("{e} (after: {log})"))?;
                    if !skipped.iter().any(|s| *s) { s.read_back(&ws).map_err(|e| format!("{e} (after: {log})"))?; }
                    if j + 1 == ops.len() { return Ok(total > 1 && nfiles > 1); }
                    io = s.open(np)?;
                    if r.chance(0.5) {
                        // update again with the same object
                        let first: Vec<Weights> = (0..r.below(total + 2)).map(|_| mkw(&new_weights(&mut r, nwt))).collect();
                        es("updating all weights", io.update_all_weights(&first))?;
                        known = false;
                        log += "update_all ";
                    } else {
                        read = 0;
                        known = true;
                    }
                }
            }
            Ok(total > 1 && nfiles > 1)
        });
    }
}

/// names of `nw` weights, perhaps fewer, perhaps with duplicates
fn weight_names(r: &mut Rng, nw: usize) -> Vec<String> {
    let n = if r.chance(0.15) { r.below(nw + 1) } else { nw };
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let s = if r.chance(0.3) { wname(r) } else { format!("w{}", v.len()) };
        if !v.contains(&s) || r.chance(0.05) { v.push(s); }
    }
    v
}

fn roundtrip(c: &mut Ctx, fmts: &[Fmt], reps: usize) {
    for _ in 0..c.n(reps) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let seed = r.clone().next();
        let fmt = *r.pick(fmts);
        let nw = if fmt == Fmt::Hep { *r.pick(&[1, 1, 2, 3, 5]) } else { 1 };
        let wnames: Option<Vec<String>> = if fmt == Fmt::Hep && (nw > 1 || r.chance(0.4)) { Some(weight_names(&mut r, nw)) } else { None };
        let names: Vec<String> = match &wnames {
            Some(n) if MULTI && n.len() > 1 && r.chance(0.7) => { let k = 1 + r.below(n.len() - 1); pick_names(&mut r, &n[1..], k) }
            _ => vec![],
        };
        // all records of a file have the same names, in the same order
        let ks: usize = match &wnames { Some(n) if MULTI => n.iter().filter(|x| names.contains(x)).count(), _ => 0 };
        let odd = r.chance(0.3);
        let n = r.below(4);
        let files: Vec<TFile> = match fmt {
            Fmt::Hep => vec![hep_file(&mut r, n, nw, wnames.clone(), odd)],
            Fmt::Lhe => vec![lhe_file(&mut r, n)],
            Fmt::Xml => (0..1 + r.below(3)).map(|_| { let nm = *r.pick(&["RR", "B"]); let n = r.below(4); xml_file(&mut r, n, nm) }).collect(),
        };
        let comp = if r.chance(0.1) { compr(&mut r) } else { (None, "") };
        let s = Setup::new(&mut r, files, names.clone(), comp);
        let np = r.below(5);
        let texts: Vec<String> = s.files.iter().map(|f| f.text()).collect();
        let ws: Vec<Vec<f64>> = (0..s.total).map(|_| if MULTI && r.chance(0.05) { vec![] } else if fmt == Fmt::Xml { vec![mom_num(&mut r).parse().unwrap()] } else { new_weights(&mut r, 1 + ks) }).collect();
        let desc = format!("{fmt:?} files {texts:?}, names {names:?}, new weights {ws:?}, case seed {seed}");
        c.case(&desc, || {
            s.check_inputs(np)?;
            let mut io = s.open(np)?;
            let conv = converter(&names);
            let dup = s.files.iter().any(|f| f.recs.iter().any(|rec| rec.positions(&names).map(|p| p[1..].contains(&0)).unwrap_or(false)));
            for k in 0..s.total {
                let rec = io.next().ok_or_else(|| format!("stream ends after {k} of {} records", s.total))?;
                let rec = es("reading", rec)?;
                s.check_read(rec.clone(), k)?;
                let e = es("parsing", conv.try_convert(rec))?;
                let (f, i) = s.locate(k);
                let tr = &s.files[f].recs[i];
                let w: Vec<f64> = if fmt == Fmt::Xml {
                    let w = tr.weight(0) * s.scale[f];
                    let got = weights_of(&e);
                    ensure(got.len() == 1 && close(got[0], w, w), || format!("record {k}: weights {got:?}, expected [{w}]"))?;
                    got
                } else if MULTI {
                    tr.positions(&names).unwrap().iter().map(|&p| tr.weight(p)).collect()
                } else { vec![tr.weight(0)] };
                tr.check_event(&e, &w).map_err(|e| format!("record {k}: {e}"))?;
            }
            ensure(io.next().is_none(), || "more records than written".into())?;
            if dup { return Ok(false); }
            let w: Vec<Weights> = ws.iter().map(|w| mkw(w)).collect();
            let n = es("updating all weights", io.update_all_weights(&w))?;
            ensure(n == s.total, || format!("{n} of {} weights updated", s.total))?;
            drop(io);
            let skipped = vec![false; s.total];
            s.check_outputs(&ws, &skipped)?;
            s.read_back(&ws)?;
            if fmt == Fmt::Xml {
                // read back with the normalisation
                let mut t = Setup { ins: s.outs.clone(), outs: s.outs.iter().map(|o| o.with_extension("second")).collect(), files: s.files.clone(), names: vec![], scale: s.scale.clone(), norms: s.norms.clone(), kind: "", comp: None, _dir: dir(), offset: s.offset.clone(), total: s.total };
                let io = t.open(np)?;
                let mut k = 0;
                for rec in io {
                    let e = es("parsing the output", conv.try_convert(es("reading the output", rec)?))?;
                    let (f, i) = s.locate(k);
                    let w = if ws[k].is_empty() { s.files[f].recs[i].weight(0) * s.scale[f] } else { ws[k][0] };
                    let got = weights_of(&e);
                    ensure(got.len() == 1 && close(got[0], w, w), || format!("record {k}: read back {got:?}, written {w}"))?;
                    k += 1;
                }
                ensure(k == s.total, || format!("{k} records read back of {}", s.total))?;
                t.total = k;
            }
            Ok(s.total > 0)
        });
    }
}

/// replace the `n`-th token of a line
fn set_token(line: &str, n: usize, with: &str) -> String {
    let mut out = String::new();
    let mut k = 0;
    for (i, t) in line.split(' ').enumerate() {
        if i > 0 { out.push(' '); }
        if t.is_empty() { continue; }
        out += if k == n { with } else { t };
        k += 1;
    }
    out
}

pub fn c13(c: &mut Ctx) {
    roundtrip(c, &[Fmt::Hep], 2500);
    // malformed records
    for _ in 0..c.n(1500) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let nw = 1 + r.below(3);
        let wnames: Option<Vec<String>> = if r.chance(0.7) { Some((0..nw).map(|i| format!("w{i}")).collect()) } else { None };
        let rec = hep_rec(&mut r, nw, wnames.clone(), false);
        let text = rec.text();
        let mut names: Vec<String> = vec![];
        let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let nr: usize = lines[0].split(' ').nth(11).unwrap().parse().unwrap();
        let bad = *r.pick(&["x", "--1", "e5", "#", "+-2"]);
        let what = match r.below(10) {
            0 => { lines[0] = set_token(&lines[0], 11, bad); "number of random states" }
            1 => { lines[0] = set_token(&lines[0], 12 + nr, bad); "number of weights" }
            2 => { lines[0] = set_token(&lines[0], 13 + nr, bad); "central weight" }
            3 => { let cut = 5 + r.below(8 + nr); lines[0] = lines[0].split(' ').take(cut).collect::<Vec<_>>().join(" "); "truncated event line" }
            4 | 5 => {
                let Some(i) = (0..lines.len()).find(|&i| lines[i].starts_with('P')) else { continue };
                let t = *r.pick(&[2, 3, 4, 5, 6, 8]);
                lines[i] = set_token(&lines[i], t, bad);
                "particle entry"
            }
            6 => {
                let Some(i) = (0..lines.len()).find(|&i| lines[i].starts_with('P')) else { continue };
                let n = 1 + r.below(8);
                lines[i] = lines[i].split(' ').take(n).collect::<Vec<_>>().join(" ");
                "truncated particle line"
            }
            7 => { let at = 1 + r.below(lines.len()); lines.insert(at, "X 1 2 3".into()); "unknown line" }
            8 => { lines.push("U KEV MM".into()); "unknown unit" }
            _ => {
                if !MULTI { continue }
                names = vec!["missing".into()];
                if let Some(n) = &wnames { if nw > 1 && r.chance(0.5) { names.push(n[1].clone()); } }
                if r.chance(0.5) { names.reverse(); }
                "requested weight missing"
            }
        };
        let text = lines.join("\n") + "\n";
        let desc = format!("malformed record ({what}): `{text}`, names {names:?}");
        c.case(&desc, || {
            match converter(&names).parse_hepmc(&text) {
                Err(_) => Ok(true),
                Ok(e) => Err(format!("record with malformed content ({what}) is parsed as {e:?}")),
            }
        });
    }
    // not UTF-8
    for at_end in [false, true] {
        c.case(&format!("record that is not UTF-8, at the end of the file: {at_end}"), || {
            let mut r = Rng::new(5);
            let f = hep_file(&mut r, 2, 1, None, false);
            let d = dir();
            let mut bytes = f.header.clone().into_bytes();
            let mut a = f.recs[0].text().into_bytes();
            a.insert(3, 0xff);
            let b = f.recs[1].text().into_bytes();
            if at_end { bytes.extend(b); bytes.extend(a); } else { bytes.extend(a); bytes.extend(b); }
            let p = d.path().join("in.hepmc");
            write(&p, &bytes, false);
            let rd = es("opening", FileReader::try_new(p))?;
            let res: Vec<bool> = rd.map(|x| x.is_ok()).collect();
            ensure(res == if at_end { [true, false] } else { [false, true] }, || format!("records read: {res:?}"))?;
            Ok(true)
        });
    }
}

pub fn c14(c: &mut Ctx) {
    let fmts: &[Fmt] = if cfg!(feature = "stripper-xml") { &[Fmt::Lhe, Fmt::Xml] } else { &[Fmt::Lhe] };
    roundtrip(c, fmts, 3000);
}
