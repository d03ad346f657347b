//! C18: option values are accepted exactly when they are supported
#![allow(dead_code)]
mod common;
use common::*;

#[path = "/repo/src/bin/opt_common.rs"]
mod opt_common;
#[path = "/repo/src/bin/opt_cres.rs"]
mod opt_cres;
#[path = "/repo/src/bin/opt_partition.rs"]
mod opt_partition;
#[path = "/repo/src/bin/opt_cres_validate.rs"]
mod opt_cres_validate;
#[path = "/repo/src/bin/opt_classify.rs"]
mod opt_classify;

use clap::Parser;
use cres::cluster::JetAlgorithm;
use cres::compression::Compression;
use cres::seeds::Strategy;
use std::path::PathBuf;

const BASE: [&str; 8] = ["prog", "-o", "out", "-a", "kt", "-R", "0.5", "-p"];

fn args(extra: &[String]) -> Vec<String> {
    let mut v: Vec<String> = BASE.iter().map(|s| s.to_string()).collect();
    v.push("30".into());
    v.extend_from_slice(extra);
    v
}

fn cres_opt(extra: &[String]) -> Result<opt_cres::Opt, String> {
    opt_cres::Opt::try_parse_from(args(extra)).map_err(|e| e.to_string())
}

fn part_opt(extra: &[String], regions: Option<&str>) -> Result<opt_partition::Opt, String> {
    let mut a = args(extra);
    a.push(format!("--regions={}", regions.unwrap_or("4")));
    opt_partition::Opt::try_parse_from(a).map_err(|e| e.to_string())
}

fn class_opt(extra: &[String]) -> Result<opt_classify::Opt, String> {
    let mut a: Vec<String> = ["prog", "-o", "out", "-p", "part"].iter().map(|s| s.to_string()).collect();
    a.extend_from_slice(extra);
    opt_classify::Opt::try_parse_from(a).map_err(|e| e.to_string())
}

/// algorithm and level, independent of cres
fn want_compr(s: &str) -> Option<(char, u64)> {
    let s: String = s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
    let (algo, lvl) = match s.find('_') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (&s[..], None) };
    let (kind, default, max) = match algo {
        "bzip2" | "bz2" => ('b', 0, None),
        "gzip" | "gz" => ('g', 6, Some(9)),
        "lz4" => ('l', 0, Some(16)),
        "zstd" | "zstandard" => ('z', 0, Some(19)),
        _ => return None,
    };
    let Some(lvl) = lvl else { return Some((kind, default)) };
    let max = max?;
    if lvl.is_empty() || !lvl.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u64 = 0;
    for b in lvl.bytes() { v = (v * 10 + (b - b'0') as u64).min(1 << 40); }
    if v <= max { Some((kind, v)) } else { None }
}

fn got_compr(c: Compression) -> (char, u64) {
    match c {
        Compression::Bzip2 => ('b', 0),
        Compression::Gzip(l) => ('g', l as u64),
        Compression::Lz4(l) => ('l', l as u64),
        Compression::Zstd(l) => ('z', l as u64),
    }
}

fn want_strategy(s: &str) -> Option<Strategy> {
    match s {
        "Any" | "any" => Some(Strategy::Next),
        "MostNegative" | "most_negative" => Some(Strategy::MostNegative),
        "LeastNegative" | "least_negative" => Some(Strategy::LeastNegative),
        _ => None,
    }
}

fn want_jet(s: &str) -> Option<char> {
    match s {
        "anti_kt" | "antikt" | "anti-kt" => Some('a'),
        "kt" => Some('k'),
        "Cambridge/Aachen" | "Cambridge-Aachen" | "Cambridge_Aachen" | "cambridge/aachen" | "cambridge-aachen" | "cambridge_aachen" => Some('c'),
        _ => None,
    }
}

fn jet(a: JetAlgorithm) -> char {
    match a { JetAlgorithm::AntiKt => 'a', JetAlgorithm::CambridgeAachen => 'c', JetAlgorithm::Kt => 'k' }
}

fn want_regions(s: &str) -> Option<u32> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u64 = 0;
    for b in d.bytes() { v = (v * 10 + (b - b'0') as u64).min(1 << 40); }
    (0..32).find(|&k| 1u64 << k == v).map(|k| 1u32 << k)
}

/// a known word, possibly damaged
fn mutate(r: &mut Rng, words: &[&str]) -> String {
    let mut s: Vec<char> = r.pick(words).chars().collect();
    let n = [0, 0, 1, 1, 2][r.below(5)];
    for _ in 0..n {
        let cs: Vec<char> = "_-/ 0123456789zZgGbBkKtT.+xaA²٣ſ\u{212a}\n,".chars().collect();
        let c = *r.pick(&cs);
        let k = r.below(s.len() + 1);
        match r.below(4) {
            0 => s.insert(k, c),
            1 if k < s.len() => { s.remove(k); }
            2 if k < s.len() => s[k] = c,
            _ => if let Some(x) = s.get_mut(k) { *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }; },
        }
    }
    s.into_iter().collect()
}

fn case_of(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.chance(0.5) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

fn show<T: std::fmt::Debug>(x: &T) -> String { format!("{x:?}") }

fn check_compr(s: &str) -> Result<bool, String> {
    let want = want_compr(s);
    let got = opt_common::parse_compr(s).map(got_compr).map_err(|e| e.to_string());
    let bad = |what: &str, got: String| Err(format!("{what}: compression setting '{s}' gives {got}, expected {want:?}"));
    if got.as_ref().ok() != want.as_ref() { return bad("parse_compr", show(&got)); }
    let e = vec![format!("--compression={s}")];
    let g = [
        ("cres", cres_opt(&e).map(|o| o.compression)),
        ("cres-partition", part_opt(&e, None).map(|o| o.compression)),
        ("cres-classify-events", class_opt(&e).map(|o| o.compression)),
    ];
    for (what, g) in g {
        let g = g.map(|c| c.map(got_compr));
        if g.as_ref().ok().copied().flatten() != want || g.is_ok() != want.is_some() { return bad(what, show(&g)); }
    }
    Ok(want.is_some())
}

fn check_strategy(s: &str) -> Result<bool, String> {
    let want = want_strategy(s);
    let got = cres_opt(&[format!("--strategy={s}")]).map(|o| o.strategy);
    ensure(got.as_ref().ok() == want.as_ref(), || format!("strategy '{s}' gives {got:?}, expected {want:?}"))?;
    Ok(want.is_some())
}

fn check_jet(s: &str) -> Result<bool, String> {
    let want = want_jet(s);
    let got = s.parse::<JetAlgorithm>().map(jet).map_err(|e| e.to_string());
    ensure(got.as_ref().ok() == want.as_ref(), || format!("jet algorithm '{s}' gives {got:?}, expected {want:?}"))?;
    let a: Vec<String> = ["prog", "-o", "out", "-R", "0.5", "-p", "30"].iter().map(|s| s.to_string()).chain([format!("--jetalgorithm={s}")]).collect();
    let got = opt_cres::Opt::try_parse_from(&a).map(|o| jet(o.jet_def.jetalgorithm)).map_err(|e| e.to_string());
    ensure(got.as_ref().ok() == want.as_ref(), || format!("cres: jet algorithm '{s}' gives {got:?}, expected {want:?}"))?;
    let l = [format!("--leptonalgorithm={s}"), "--leptonradius=1".into(), "--leptonpt=2".into()];
    let got = cres_opt(&l).map(|o| o.lepton_def.leptonalgorithm.map(jet));
    ensure(got.as_ref().ok().copied().flatten() == want && got.is_ok() == want.is_some(), || format!("cres: lepton algorithm '{s}' gives {got:?}, expected {want:?}"))?;
    let got = part_opt(&l, None).map(|o| o.lepton_def.leptonalgorithm.map(jet));
    ensure(got.as_ref().ok().copied().flatten() == want && got.is_ok() == want.is_some(), || format!("cres-partition: lepton algorithm '{s}' gives {got:?}, expected {want:?}"))?;
    Ok(want.is_some())
}

fn check_regions(s: &str) -> Result<bool, String> {
    let want = want_regions(s);
    let got = part_opt(&[], Some(s)).map(|o| o.regions);
    ensure(got.as_ref().ok() == want.as_ref(), || format!("number of regions '{s}' gives {got:?}, expected {want:?}"))?;
    Ok(want.is_some())
}

fn check_groups(r: &mut Rng, set: usize) -> Result<bool, String> {
    let algs = [("kt", 'k'), ("anti-kt", 'a'), ("cambridge-aachen", 'c')];
    let (alg, algc) = algs[r.below(3)];
    let v: Vec<f64> = (0..5).map(|_| [0., 1., 0.25, 20., 1e-3, r.f()][r.below(6)]).collect();
    let names = ["leptonalgorithm", "leptonradius", "leptonpt", "photonefrac", "photonradius", "photonpt"];
    let mut a: Vec<String> = vec![];
    for k in 0..6 {
        if set >> k & 1 == 1 {
            a.push(if k == 0 { format!("--{}={alg}", names[k]) } else { format!("--{}={}", names[k], v[k - 1]) });
        }
    }
    r.shuffle(&mut a);
    let (l, p) = (set & 7, set >> 3);
    let ok = (l == 0 || l == 7) && (p == 0 || p == 7);
    let o = cres_opt(&a).map_err(|e| format!("{a:?}: {e}"))?;
    let res = opt_cres_validate::validate(&o.lepton_def, &o.photon_def);
    ensure(res.is_ok() == ok, || format!("{a:?}: validation gives {res:?}"))?;
    let q = part_opt(&a, None).map_err(|e| format!("{a:?}: {e}"))?;
    let res = opt_cres_validate::validate(&q.lepton_def, &q.photon_def);
    ensure(res.is_ok() == ok, || format!("cres-partition {a:?}: validation gives {res:?}"))?;
    for (ld, pd) in [(o.lepton_def, o.photon_def), (q.lepton_def, q.photon_def)] {
        if l == 7 {
            let d = cres::cluster::JetDefinition::from(ld);
            ensure(jet(d.algorithm) == algc && d.radius == v[0] && d.min_pt == v[1], || format!("{a:?} gives the lepton definition {d:?}"))?;
        }
        if p == 7 {
            let d = cres::cluster::PhotonDefinition::from(pd);
            ensure(d.min_e_fraction == v[2] && d.radius == v[3] && d.min_pt == v[4], || format!("{a:?} gives the photon definition {d:?}"))?;
        }
    }
    let d = cres::cluster::JetDefinition::from(o.jet_def);
    ensure(jet(d.algorithm) == 'k' && d.radius == 0.5 && d.min_pt == 30., || format!("jet definition is {d:?}"))?;
    Ok(true)
}

fn bins() -> Option<PathBuf> {
    let p = PathBuf::from(std::env::var_os("CRES_BINS")?);
    if p.join("cres").exists() && p.join("cres-partition").exists() { Some(p) } else { None }
}

fn tiny_hepmc() -> String {
    let mut s = String::from("HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n");
    for i in 0..12 {
        s += &format!("E {i} -1 -1.0 1.0 1.0 20 -1 1 1 2 0 1 {}\nU GEV MM\nV -1 0 0 0 0 0 0 1 0\nP 1 1 {} 3 {} 100 0 1 0 0 0 0\n", if i % 2 == 0 { -1 } else { 2 }, 40 + i, 50 - i);
    }
    s + "HepMC::IO_GenEvent-END_EVENT_LISTING\n"
}

/// the programs themselves: an unsupported setting must end them, a supported one must not
fn check_bin(b: &PathBuf, prog: &str, extra: &[String], ok: bool) -> Result<bool, String> {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let inp = dir.path().join("in.hepmc");
    std::fs::write(&inp, tiny_hepmc()).map_err(|e| e.to_string())?;
    let out = dir.path().join("out");
    let mut c = std::process::Command::new(b.join(prog));
    c.args(["-a", "kt", "-R", "0.5", "-p", "10", "-l", "off", "--threads", "1", "-o"]);
    c.arg(&out).args(extra).arg(&inp);
    if !extra.iter().any(|e| e.starts_with("--regions")) && prog == "cres-partition" { c.arg("--regions=2"); }
    let a: Vec<_> = c.get_args().map(|a| a.to_owned()).collect();
    let o = c.env_remove("RUST_BACKTRACE").current_dir(dir.path()).output().map_err(|e| e.to_string())?;
    ensure(o.status.success() == ok, || format!("{prog} {a:?} ends with {}: {}{}", o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))?;
    ensure(ok || !out.exists(), || format!("{prog} {a:?} writes output although a setting is not supported"))?;
    Ok(true)
}

fn c18(c: &mut Ctx) {
    let algos = ["bzip2", "bz2", "gzip", "gz", "lz4", "zstd", "zstandard"];
    let others = ["", "_", "zst", "gunzip", "lz", "bz", "bzip", "xz", "lz4hc", "zstd_", "gzip_+3", "gzip_-1", "gz_ 3", " gz", "gz ", "gz\n", "gz_3\n", "gz_3_4", "_3", "gz3", "gz-3", "gz_3.", "gz_0x3",
        "gzip_٣", "lz4_1e0", "zstd_256", "gz_256", "gz_262", "lz4_272", "zstd_275", "zstd_18446744073709551616", "gzip_000000000000000000009", "bzip2_0", "bz2_9", "bzip2_", "none", "None", "zſtd", "zstd,gz"];
    for s in others {
        c.case(&format!("compression setting {s:?}"), || check_compr(s));
    }
    for a in algos {
        for l in (-1..=300).map(|l| if l < 0 { String::new() } else { format!("_{l}") }) {
            let mut r = c.rng.fork();
            let s = case_of(&mut r, a) + &l;
            c.case(&format!("compression setting {s:?}"), || check_compr(&s));
        }
    }
    for s in ["any", "Any", "ANY", "aNy", "most_negative", "MostNegative", "mostnegative", "Most_Negative", "most-negative", "least_negative", "LeastNegative", "leastnegative", "least-negative", "", "next", "Next", "most", "negative", "any ", " any"] {
        c.case(&format!("strategy {s:?}"), || check_strategy(s));
    }
    for s in ["anti_kt", "antikt", "anti-kt", "anti/kt", "AntiKt", "Antikt", "Anti-kt", "ANTI-KT", "kt", "KT", "Kt", "k_t", "Cambridge/Aachen", "Cambridge-Aachen", "Cambridge_Aachen", "CambridgeAachen",
        "cambridge/aachen", "cambridge-aachen", "cambridge_aachen", "cambridgeaachen", "Cambridge/aachen", "cambridge/Aachen", "Cambridge", "Aachen", "cambridge", "aachen", "CA", "C/A", "", "genkt", " kt", "kt "] {
        c.case(&format!("jet algorithm {s:?}"), || check_jet(s));
    }
    for n in (0..=1100u64).chain((10..40).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)])) {
        c.case(&format!("number of regions {n}"), || check_regions(&n.to_string()));
    }
    for s in ["", "+4", "+", "-4", "4.0", "4 ", " 4", "0x4", "1e1", "two", "04", "00016", "+0", "2_0", "٤", "4294967296", "18446744073709551616", "340282366920938463463374607431768211456"] {
        c.case(&format!("number of regions {s:?}"), || check_regions(s));
    }
    for set in 0..64 {
        for _ in 0..3 {
            let seed = c.rng.next();
            c.case(&format!("settings for leptons and photons given: {set:06b} (photonpt, photonradius, photonefrac, leptonpt, leptonradius, leptonalgorithm), seed {seed}"), || check_groups(&mut Rng::new(seed), set));
        }
    }
    if let Some(b) = bins() {
        for set in 0..64 {
            let vals = ["--leptonalgorithm=kt", "--leptonradius=0.1", "--leptonpt=1", "--photonefrac=0.1", "--photonradius=0.1", "--photonpt=1"];
            let a: Vec<String> = (0..6).filter(|k| set >> k & 1 == 1).map(|k| vals[k].to_string()).collect();
            let (l, p) = (set & 7, set >> 3);
            let ok = (l == 0 || l == 7) && (p == 0 || p == 7);
            for prog in ["cres", "cres-partition"] {
                c.case(&format!("{prog} {a:?}"), || check_bin(&b, prog, &a, ok));
            }
        }
        for s in ["gzip", "BZIP2", "lz4_16", "zstd_19", "gz_9", "gz_10", "lz4_17", "zstd_20", "bz2_1", "foo"] {
            let ok = want_compr(s).is_some();
            for prog in ["cres", "cres-partition"] {
                c.case(&format!("{prog} --compression={s}"), || check_bin(&b, prog, &[format!("--compression={s}")], ok));
            }
        }
        for s in ["1", "2", "4", "3", "0", "x", "5"] {
            c.case(&format!("cres-partition --regions={s}"), || check_bin(&b, "cres-partition", &[format!("--regions={s}")], want_regions(s).is_some()));
        }
        for s in ["any", "most_negative", "least_negative", "Most_negative"] {
            c.case(&format!("cres --strategy={s}"), || check_bin(&b, "cres", &[format!("--strategy={s}")], want_strategy(s).is_some()));
        }
    }
    let n = c.n(6000);
    for k in 0..n {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        match k % 4 {
            0 => {
                let mut s = mutate(&mut r, &algos);
                if r.chance(0.7) { s = format!("{s}_{}", match r.below(4) { 0 => r.below(25) as u64, 1 => r.below(300) as u64, 2 => r.next() >> r.below(64), _ => 256 * r.below(3) as u64 + r.below(20) as u64 }); }
                let s = mutate(&mut r, &[&s]);
                c.case(&format!("compression setting {s:?}"), || check_compr(&s));
            }
            1 => {
                let s = mutate(&mut r, &["any", "Any", "MostNegative", "most_negative", "LeastNegative", "least_negative"]);
                c.case(&format!("strategy {s:?}"), || check_strategy(&s));
            }
            2 => {
                let s = mutate(&mut r, &["anti_kt", "antikt", "anti-kt", "kt", "Cambridge/Aachen", "Cambridge-Aachen", "Cambridge_Aachen", "cambridge/aachen", "cambridge-aachen", "cambridge_aachen"]);
                c.case(&format!("jet algorithm {s:?}"), || check_jet(&s));
            }
            _ => {
                let v = match r.below(3) { 0 => r.next() >> r.below(64), 1 => 1u64 << r.below(40), _ => (1u64 << r.below(40)) ^ (1 << r.below(40)) };
                let s = mutate(&mut r, &[&v.to_string()]);
                c.case(&format!("number of regions {s:?}"), || check_regions(&s));
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let budget: f64 = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(20.);
    let mut c = Ctx::new(seed, thorough, budget);
    c.rounds(budget, 10, &|c| c18(c));
    c.finish();
}
