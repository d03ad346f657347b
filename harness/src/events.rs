//! C06, C07, C08, C19: event distance, event building, seeds, four-vectors
use crate::common::*;
use cres::seeds::{SelectSeeds, StrategicSelector, Strategy};
use rayon::prelude::*;
use std::collections::BTreeMap;

fn d2(p: &[f64; 4], q: &[f64; 4], tau: f64) -> f64 {
    let pt = |p: &[f64; 4]| (p[1] * p[1] + p[2] * p[2]).sqrt();
    let s: f64 = (1..4).map(|i| (p[i] - q[i]) * (p[i] - q[i])).sum();
    let t = tau * (pt(p) - pt(q));
    (s + t * t).sqrt()
}

/// minimum over all assignments, by dynamic programming over subsets
fn assign(a: &[[f64; 4]], b: &[[f64; 4]], tau: f64) -> f64 {
    let n = a.len().max(b.len());
    let z = [0.; 4];
    let get = |v: &[[f64; 4]], i: usize| if i < v.len() { v[i] } else { z };
    let mut best = vec![f64::INFINITY; 1 << n];
    best[0] = 0.;
    for m in 0..(1usize << n) {
        let i = m.count_ones() as usize;
        if i == n {
            continue;
        }
        let p = get(a, i);
        for j in 0..n {
            if m & (1 << j) == 0 {
                let x = best[m] + d2(&p, &get(b, j), tau);
                let k = m | (1 << j);
                if x < best[k] {
                    best[k] = x;
                }
            }
        }
    }
    best[(1 << n) - 1]
}

fn oracle(a: &Raw, b: &Raw, tau: f64) -> f64 {
    let mut by: BTreeMap<i32, (Vec<[f64; 4]>, Vec<[f64; 4]>)> = BTreeMap::new();
    for &(t, p) in &a.parts {
        by.entry(t).or_default().0.push(p);
    }
    for &(t, p) in &b.parts {
        by.entry(t).or_default().1.push(p);
    }
    by.values().map(|(x, y)| assign(x, y, tau)).sum()
}

fn parts(r: &mut Rng, types: &[i32], max: usize, style: usize) -> Vec<(i32, [f64; 4])> {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| {
            let p = match style {
                0 => int_mom(r, 1),
                1 => int_mom(r, 4),
                2 => {
                    // same transverse momentum, different direction
                    let q = [[3., 4.], [4., 3.], [-3., 4.], [0., 5.], [5., 0.]][r.below(5)];
                    [6., q[0], q[1], r.range(-1, 1) as f64]
                }
                _ => real_mom(r),
            };
            (types[r.below(types.len())], p)
        })
        .collect()
}

pub fn c06(c: &mut Ctx) {
    let total = c.n(3000);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let all = [21, 22, 11, -11, 1, 6];
        let types = &all[..1 + r.below(if k % 3 == 0 { 1 } else { 6 })];
        let style = r.below(4);
        let maxp = if k % 40 == 0 { 10 } else { 2 + r.below(6) };
        let a = Raw { id: r.below(5), w: vec![1.], parts: parts(&mut r, types, maxp, style) };
        let b = if k % 5 == 0 { a.clone() } else { Raw { id: r.below(5), w: vec![2.], parts: parts(&mut r, types, maxp, style) } };
        let tau = *r.pick(&[0., 0.5, 1., 3.]);
        let mut b2 = b.clone();
        r.shuffle(&mut b2.parts);
        let desc = format!("tau {tau} {:?} vs {:?}", a.parts, b.parts);
        c.case(&desc, || {
            let d = EuclWithScaledPt::new(n64(tau));
            let (ea, eb, eb2) = (a.event(), b.event(), b2.event());
            let want = oracle(&a, &b, tau);
            let scale = want + a.parts.iter().chain(&b.parts).map(|p| p.1[0].abs()).sum::<f64>();
            let ab: f64 = d.distance(&ea, &eb).into();
            let ba: f64 = d.distance(&eb, &ea).into();
            let ab2: f64 = d.distance(&ea, &eb2).into();
            ensure(close(ab, want, scale), || format!("distance {ab}, the optimal pairing gives {want}"))?;
            ensure(close(ab, ba, scale), || format!("distance {ab} one way, {ba} the other"))?;
            ensure(close(ab2, ab, scale), || format!("distance {ab}, {ab2} with the particles in a different order"))?;
            ensure(ab >= 0. && ba >= 0., || format!("negative distance {ab}"))?;
            for e in [&a, &b] {
                let mut s = e.clone();
                s.parts.reverse();
                for (_, p) in s.parts.iter_mut() {
                    p[0] += 1.; // energies do not matter
                }
                let zero: f64 = d.distance(&e.event(), &s.event()).into();
                ensure(zero.abs() <= 1e-12 * scale, || format!("distance {zero} between events with the same momenta"))?;
            }
            Ok(!a.parts.is_empty() && !b.parts.is_empty() && want > 0.)
        });
    }
}

fn comps(p: &FourVector) -> [f64; 4] {
    [p[0].into(), p[1].into(), p[2].into(), p[3].into()]
}

fn sorted(mut v: Vec<[f64; 4]>) -> Vec<[f64; 4]> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

pub fn c07(c: &mut Ctx) {
    let total = c.n(4000);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let all = [21, 22, 11, -11, 1, -1, 6, 0, i32::MAX, i32::MIN, 2212];
        let nt = 1 + r.below(all.len());
        let style = r.below(4);
        let maxp = if k % 20 == 0 { 60 } else { 9 };
        let raw = Raw {
            id: 0,
            w: (0..1 + r.below(6)).map(|_| weight(&mut r, 1)).collect(),
            parts: parts(&mut r, &all[..nt], maxp, style),
        };
        let scale = if r.chance(0.5) { Some(*r.pick(&[0.001, 2., -1., 0., 1000.])) } else { None };
        let mut other = raw.clone();
        r.shuffle(&mut other.parts);
        let desc = format!("scale {scale:?} {raw:?}");
        c.case(&desc, || {
            let build = |raw: &Raw| {
                let mut b = EventBuilder::with_capacity(raw.parts.len() / 2);
                for &(id, p) in &raw.parts {
                    b.add_outgoing(ParticleID::new(id), fv(p));
                }
                for &w in &raw.w {
                    b.add_weight(n64(w));
                }
                if let Some(s) = scale {
                    b.rescale_energies(n64(s));
                }
                b.build()
            };
            let e = build(&raw);
            let s = scale.unwrap_or(1.);
            let mut want: BTreeMap<i32, Vec<[f64; 4]>> = BTreeMap::new();
            for &(t, p) in &raw.parts {
                want.entry(t).or_default().push([s * p[0], s * p[1], s * p[2], s * p[3]]);
            }
            let out = e.outgoing();
            ensure(out.len() == want.len(), || format!("{} groups for {} particle types", out.len(), want.len()))?;
            for w in out.windows(2) {
                ensure(w[0].0 > w[1].0, || format!("groups {:?}, {:?} out of order", w[0].0, w[1].0))?;
            }
            for (t, ps) in out.iter() {
                ensure(!ps.is_empty(), || format!("empty group {t:?}"))?;
                let got = sorted(ps.iter().map(comps).collect());
                let w = want.get(&t.id()).cloned().map(sorted);
                ensure(Some(&got) == w.as_ref(), || format!("type {t:?} has momenta {got:?}, added were {w:?}"))?;
                for p in ps.iter() {
                    let q = comps(p);
                    ensure(p.pt() == n64((q[1] * q[1] + q[2] * q[2]).sqrt()), || format!("momentum {q:?} with pt {}", p.pt()))?;
                }
            }
            for t in all.iter().chain(&[5, -6, 99]) {
                let got = sorted(e.outgoing_with_pid(ParticleID::new(*t)).iter().map(comps).collect());
                let w = sorted(want.get(t).cloned().unwrap_or_default());
                ensure(got == w, || format!("looking up {t} gives {got:?}, added were {w:?}"))?;
            }
            let w = weights_of(&e);
            let wantw = if MULTI { raw.w.clone() } else { vec![*raw.w.last().unwrap()] };
            ensure(w == wantw, || format!("weights {w:?}, added were {:?}", raw.w))?;
            ensure(e.n_weights() == wantw.len() && f64::from(e.weight()) == wantw[0], || {
                format!("{} weights, central weight {}", e.n_weights(), e.weight())
            })?;
            ensure(e.id() == 0, || format!("id {}", e.id()))?;
            let f = build(&other);
            ensure(e == f && e.outgoing() == f.outgoing(), || "a different order of insertion gives a different event".into())?;
            let out = e.into_outgoing();
            ensure(*out == *f.outgoing(), || "into_outgoing differs from outgoing".into())?;
            Ok(raw.parts.len() > 1)
        });
    }
}

pub fn c08(c: &mut Ctx) {
    crate::cells::default_chain(c);
    let total = c.n(1500);
    let pools = [pool(1), pool(4), pool(8)];
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = match k % 50 {
            7 => 2000 + r.below(4000),
            3 | 13 | 23 => 60 + r.below(200),
            _ => r.below(30),
        };
        let style = r.below(6);
        let nw = if MULTI { 1 + r.below(3) } else { 1 };
        let raw: Vec<Raw> = (0..n)
            .map(|i| {
                let mut w: Vec<f64> = (0..nw).map(|_| weight(&mut r, style)).collect();
                if r.chance(0.1) {
                    w[0] = *r.pick(&[0., -0., f64::MIN_POSITIVE, -f64::MIN_POSITIVE, -1e300, 1e300, -1.]);
                }
                Raw { id: n - i, w, parts: vec![] }
            })
            .collect();
        let strat = r.below(3);
        let p = r.below(3);
        let ws: Vec<f64> = raw.iter().map(|e| e.w[0]).collect();
        let desc = if n < 300 { format!("strategy {strat} central weights {ws:?}") } else { format!("strategy {strat} {n} events VERIF_SEED={} case {k}", c.seed) };
        let pool = &pools[p];
        c.case(&desc, || {
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let s = [Strategy::LeastNegative, Strategy::MostNegative, Strategy::Next][strat];
            let got: Vec<usize> = pool.install(|| StrategicSelector::new(s).select_seeds(&events).collect());
            let neg: Vec<usize> = (0..n).filter(|&i| ws[i] < 0.).collect();
            let mut set = got.clone();
            set.sort();
            ensure(set == neg, || format!("selected {got:?}, negative are {neg:?}"))?;
            for w in got.windows(2) {
                let ok = match strat {
                    0 => ws[w[0]] >= ws[w[1]],
                    1 => ws[w[0]] <= ws[w[1]],
                    _ => w[0] < w[1],
                };
                ensure(ok, || format!("seed {} (weight {}) before seed {} (weight {})", w[0], ws[w[0]], w[1], ws[w[1]]))?;
            }
            // in sequence on a single thread as well
            Ok(neg.len() > 1)
        });
    }
    c.case("default strategy", || {
        ensure(Strategy::default() == Strategy::MostNegative, || "default strategy is not most negative".into())?;
        ensure(StrategicSelector::default() == StrategicSelector::new(Strategy::MostNegative), || "default selector".into())?;
        Ok(true)
    });
}

pub fn c19(c: &mut Ctx) {
    let total = c.n(6000);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let style = r.below(3);
        let nops = 1 + r.below(8);
        let gen = |r: &mut Rng| -> [f64; 4] {
            match style {
                0 => [r.range(-5, 5) as f64, r.range(-5, 5) as f64, r.range(-5, 5) as f64, r.range(-5, 5) as f64],
                1 => real_mom(r),
                _ => {
                    let s = 10f64.powi(r.range(-100, 100) as i32);
                    [s * (r.f() - 0.5), s * (r.f() - 0.5), s * (r.f() - 0.5), s * (r.f() - 0.5)]
                }
            }
        };
        let start = gen(&mut r);
        let ops: Vec<(usize, [f64; 4])> = (0..nops).map(|_| (r.below(7), gen(&mut r))).collect();
        let desc = format!("start {start:?} operations {ops:?}");
        c.case(&desc, || {
            let mut p = fv(start);
            let mut want = start;
            let check = |p: &FourVector, want: &[f64; 4], what: usize| -> Result<(), String> {
                let got = comps(p);
                let m = want.iter().fold(0f64, |a, b| a.max(b.abs()));
                for i in 0..4 {
                    ensure(close(got[i], want[i], m), || format!("operation {what}: components {got:?} instead of {want:?}"))?;
                }
                let pt = (got[1] * got[1] + got[2] * got[2]).sqrt();
                ensure(close(p.pt().into(), pt, pt), || format!("operation {what}: pt {} of {got:?} should be {pt}", p.pt()))?;
                let s2 = got[1] * got[1] + got[2] * got[2] + got[3] * got[3];
                let e2 = s2 + got[0] * got[0];
                for (name, a, b) in [
                    ("spatial_norm_sq", f64::from(p.spatial_norm_sq()), s2),
                    ("euclid_norm_sq", f64::from(p.euclid_norm_sq()), e2),
                    ("spatial_norm", f64::from(p.spatial_norm()), s2.sqrt()),
                    ("euclid_norm", f64::from(p.euclid_norm()), e2.sqrt()),
                ] {
                    ensure(close(a, b, b), || format!("operation {what}: {name} of {got:?} is {a}, should be {b}"))?;
                }
                Ok(())
            };
            check(&p, &want, 99)?;
            check(&FourVector::new(), &[0.; 4], 98)?;
            for (op, x) in &ops {
                let q = fv(*x);
                match op {
                    0 => { p = p + q; for i in 0..4 { want[i] += x[i] } }
                    1 => { p = p - q; for i in 0..4 { want[i] -= x[i] } }
                    2 => { p += q; for i in 0..4 { want[i] += x[i] } }
                    3 => { p -= q; for i in 0..4 { want[i] -= x[i] } }
                    4 => {
                        let s = x[1].clamp(-10., 10.);
                        let mut b = EventBuilder::new();
                        b.add_weight(n64(1.));
                        b.add_outgoing(ParticleID::new(1), p);
                        b.rescale_energies(n64(s));
                        p = b.build().outgoing()[0].1[0];
                        for i in 0..4 { want[i] *= s }
                    }
                    5 if f64::from(p[0]) > 1.001 * f64::from(p[3]).abs() && f64::from(p[0]) > 1e-100 && f64::from(p[0]) < 1e100 => {
                        // through the jet library and back
                        let j = jetty::PseudoJet::from(p);
                        p = j.into();
                    }
                    _ => { p = q; want = *x; }
                }
                check(&p, &want, *op)?;
                want = comps(&p);
            }
            Ok(true)
        });
    }
}
