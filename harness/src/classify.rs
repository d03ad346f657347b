//! C20: every event ends up in the file of its region, and nowhere else
use crate::common::*;
use crate::files::{converter, es, out_text};
use crate::formats::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition};
use cres::io::FileReader;
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::{Clustering, TryConvert};
use std::path::{Path, PathBuf};
use std::process::Command;

type Partition = VPTreePartition<Event, EuclWithScaledPt>;
type PartInfo = (DefaultClustering, Partition);

fn event_of(rec: &Rec, clustering: &DefaultClustering) -> Result<Event, String> {
    let s = if rec.mev { 1e-3 } else { 1. };
    let raw = Raw {
        id: 0,
        w: vec![1.],
        parts: rec.parts.iter().filter(|p| p.out).map(|p| (p.id, p.p.map(|x| x * s))).collect(),
    };
    es("clustering", clustering.cluster(raw.event()))
}

fn copy(e: &Event) -> Event {
    let parts = e.outgoing().iter().flat_map(|(t, ps)| ps.iter().map(|p| (t.id(), [0, 1, 2, 3].map(|i| f64::from(p[i]))))).collect();
    Raw { id: 0, w: vec![1.], parts }.event()
}

/// a partition into 2^d regions with vantage points like the events
fn partition(r: &mut Rng, pts: &[Event], depth: usize, dist: EuclWithScaledPt) -> Partition {
    let n = (1 << depth) - 1;
    let mut vp = vec![];
    for _ in 0..n {
        let pt = copy(r.pick(pts));
        let other = r.pick(pts);
        let d = f64::from(dist.distance(&pt, other));
        // at times exactly at the distance of an event: it belongs inside
        let rad = if r.chance(0.6) { d } else { d * (0.5 + r.f()) };
        vp.push(VPBisection { pt, r: n64(rad) });
    }
    unsafe { VPTreePartition::from_vp(vp, dist) }
}

/// the region a point belongs to, from the tree alone
fn region(vp: &[VPBisection<Event>], dist: &EuclWithScaledPt, e: &Event) -> usize {
    let mut bits = vec![];
    let mut first = 0;
    let mut k = 0;
    while k < vp.len() {
        let outside = dist.distance(&vp[k].pt, e) > vp[k].r;
        bits.push(outside);
        first = 2 * first + outside as usize;
        k = 2 * k + 1 + outside as usize;
    }
    first
}

struct Input { path: PathBuf, file: TFile, names: Box<dyn Fn(usize) -> String> }

fn check(bin: &Path, seed: u64) -> Result<bool, String> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let nfiles = 1 + r.below(3);
    let mut inputs: Vec<Input> = vec![];
    for k in 0..nfiles {
        let n = [0, 1, 2, 5, 9][r.below(5)];
        let odd = r.chance(0.3);
        let nw = 1 + r.below(3);
        let mut file = match r.below(3) {
            0 => hep_file(r, n, nw, None, odd),
            1 => lhe_file(r, n),
            _ => xml_file(r, n, "cont"),
        };
        if file.footer.is_empty() { file.footer = "HepMC::IO_GenEvent-END_EVENT_LISTING\n".into(); }
        let ext = match file.fmt { Fmt::Hep => "hepmc", Fmt::Lhe => "lhe", Fmt::Xml => "xml" };
        let gz = r.chance(0.25);
        let (name, names): (String, Box<dyn Fn(usize) -> String>) = match r.below(4) {
            0 if !gz => (format!("in{k}"), Box::new(move |i| format!("in{k}.{i}."))),
            1 => (format!("in {k}.a.b.{ext}"), Box::new(move |i| format!("in {k}.{i}.a.b.{ext}"))),
            _ if gz => (format!("in{k}.{ext}.gz"), Box::new(move |i| format!("in{k}.{i}.{ext}.gz"))),
            _ => (format!("in{k}.{ext}"), Box::new(move |i| format!("in{k}.{i}.{ext}"))),
        };
        let path = dir.path().join(name);
        write(&path, file.text().as_bytes(), gz);
        inputs.push(Input { path, file, names });
    }
    let algo = [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen][r.below(3)];
    let mut clustering = DefaultClustering::new(JetDefinition { algorithm: algo, radius: 0.4, min_pt: 20. }).include_neutrinos(r.chance(0.5));
    if r.chance(0.3) { clustering = clustering.with_lepton_def(JetDefinition { algorithm: algo, radius: 0.1, min_pt: 5. }); }
    let mut pts = vec![];
    for i in &inputs {
        for rec in &i.file.recs { pts.push(event_of(rec, &clustering)?); }
    }
    if pts.is_empty() || r.chance(0.3) {
        for raw in sample(r, 4, 1, 0, false) { pts.push(es("clustering", clustering.cluster(raw.event()))?); }
    }
    let depth = r.below(5);
    let dist = EuclWithScaledPt::new(n64([0., 0.5, 2.][r.below(3)]));
    let part = partition(r, &pts, depth, dist);
    let pfile = dir.path().join("partition");
    let txt = es("writing the partition", serde_yaml::to_string(&(&clustering, &part)))?;
    std::fs::write(&pfile, &txt).unwrap();
    // as the program sees it
    let (clustering, part): PartInfo = es("reading the partition", serde_yaml::from_str(&txt))?;
    let nreg = part.len();
    ensure(nreg == 1 << depth, || format!("{nreg} regions in a partition of depth {depth}"))?;
    let vp = part.into_tree();
    let (copt, ckind) = [("", ""), ("", ""), ("gz", "gz"), ("bzip2", "bz2"), ("lz4_2", "lz4"), ("zstd", "zst")][r.below(6)];
    let out = dir.path().join("out/deep");
    let mut c = Command::new(bin);
    c.arg("-p").arg(&pfile).arg("-o").arg(&out).args(["-l", "off"]);
    if !copt.is_empty() { c.arg(format!("--compression={copt}")); }
    c.args(inputs.iter().map(|i| &i.path));
    let o = c.env_remove("RUST_BACKTRACE").current_dir(dir.path()).output().map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    ensure(o.status.success(), || format!("classification ends with {}: {err}", o.status))?;
    let mut files: Vec<String> = std::fs::read_dir(&out).map_err(|e| e.to_string())?.map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect();
    files.sort();
    let mut want: Vec<String> = inputs.iter().flat_map(|i| (0..nreg).map(|k| (i.names)(k))).collect();
    want.sort();
    ensure(files == want, || format!("output files are {files:?}, expected {want:?}"))?;
    let mut most = 0;
    for inp in &inputs {
        let f = &inp.file;
        let mut exp = vec![f.header.clone(); nreg];
        // records as they come from the reader, events from the text
        let reader = es("reading", FileReader::try_new(inp.path.clone()))?;
        let mut n = 0;
        let mut regs = std::collections::BTreeSet::new();
        for (k, ev) in reader.enumerate() {
            let ev = es("reading", ev)?;
            ensure(k < f.recs.len(), || "more records read than written".into())?;
            let ev = es("converting", converter(&[]).try_convert(ev))?;
            let ev = es("clustering", clustering.cluster(ev))?;
            let reg = region(&vp, &dist, &ev);
            regs.insert(reg);
            exp[reg] += &f.recs[k].text();
            n += 1;
        }
        ensure(n == f.recs.len(), || format!("{n} records read, {} in the file", f.recs.len()))?;
        most = most.max(regs.len());
        for k in 0..nreg {
            let p = out.join((inp.names)(k));
            let txt = out_text(&p, ckind)?;
            let rest = txt.strip_prefix(&exp[k]).ok_or_else(|| format!("{:?}: file of region {k} of {nreg} is\n{txt}\nexpected\n{}{}", inp.path.file_name().unwrap(), exp[k], f.footer))?;
            // spacing around the footer does not matter
            ensure(rest.trim() == f.footer.trim(), || format!("{:?}: the file of region {k} of {nreg} ends with `{rest}`, expected `{}`; complete file:\n{txt}", inp.path.file_name().unwrap(), f.footer))?;
        }
    }
    Ok(most > 1)
}

pub fn c20(c: &mut Ctx) {
    PHYSICAL.store(true, std::sync::atomic::Ordering::Relaxed);
    let bin = PathBuf::from(std::env::var_os("CRES_BINS").unwrap_or_default()).join("cres-classify-events");
    if !bin.exists() {
        println!("NOTE no executable {bin:?}");
        std::process::exit(4);
    }
    for _ in 0..c.n(400) {
        if !c.more() { break; }
        let seed = c.rng.next();
        c.case(&format!("files and partition made from seed {seed}"), || check(&bin, seed));
    }
}
