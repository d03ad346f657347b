//! C09: unweighting
use crate::common::*;
use cres::traits::Unweight;
use cres::unweight::{Unweighter, NO_UNWEIGHTING};

/// random numbers: a fixed value, or a stream, or alternating extremes
struct Mock(usize, Rng, u64);

impl rand::RngCore for Mock {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.2 += 1;
        match self.0 {
            0 => 0,
            1 => u64::MAX,
            2 => if self.2 % 2 == 0 { 0 } else { u64::MAX },
            _ => self.1.next(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
}

fn check(evs: &[Raw], m: f64, got: &[Event]) -> Result<bool, String> {
    // order, identity, completeness
    let mut pos = 0;
    let mut kept = vec![];
    for e in got {
        while pos < evs.len() && evs[pos].id != e.id {
            ensure(m != 0. && evs[pos].w[0].abs() < m, || format!("event {} with weight {} is missing (threshold {m})", evs[pos].id, evs[pos].w[0]))?;
            pos += 1;
        }
        ensure(pos < evs.len(), || format!("event {} is new or out of order", e.id))?;
        ensure(evs[pos].event().outgoing() == e.outgoing(), || format!("momenta of event {} changed", e.id))?;
        kept.push(&evs[pos]);
        pos += 1;
    }
    for e in &evs[pos..] {
        ensure(m != 0. && e.w[0].abs() < m, || format!("event {} with weight {} is missing (threshold {m})", e.id, e.w[0]))?;
    }
    if m == 0. {
        for (e, g) in evs.iter().zip(got) {
            ensure(e.event().weights.read().clone() == *g.weights.read(), || format!("weights of event {} changed without unweighting", e.id))?;
        }
        return Ok(!evs.is_empty());
    }
    let s0: f64 = evs.iter().map(|e| e.w[0]).sum();
    let fac = |w: f64| if w.abs() < m { m / w.abs() } else { 1. };
    for e in &kept {
        ensure(e.w[0] != 0., || format!("event {} of weight zero is kept", e.id))?;
    }
    ensure(got.len() == kept.len(), || "length".into())?;
    let terms: Vec<f64> = kept.iter().map(|e| e.w[0] * fac(e.w[0])).collect();
    let s1: f64 = terms.iter().sum();
    let abs: f64 = terms.iter().map(|t| t.abs()).sum();
    let scale = if s1 == 0. { 1. } else { s0 / s1 };
    // a sum that cancels is known to rounding only: any common factor
    let abs0: f64 = evs.iter().map(|e| e.w[0].abs()).sum();
    let cancel = abs > 0. && s1.abs() < 1e-9 * abs;
    let vague = cancel || !kept.is_empty() && abs0 > 0. && s0.abs() < 1e-9 * abs0;
    let scale = if vague {
        let i = (0..terms.len()).max_by(|&i, &j| terms[i].abs().total_cmp(&terms[j].abs())).unwrap();
        weights_of(&got[i])[0] / terms[i]
    } else {
        scale
    };
    let cond = if s1 == 0. || vague { 1. } else { abs / s1.abs() + if s0 == 0. { 0. } else { abs0 / s0.abs() } };
    let mut tot = 0.;
    for (e, g) in kept.iter().zip(got) {
        let w = weights_of(g);
        ensure(w.len() == e.w.len(), || format!("event {} has {} weights", e.id, w.len()))?;
        for (a, b) in e.w.iter().zip(&w) {
            let x = a * fac(e.w[0]) * scale;
            ensure(b.is_finite() && (x - b).abs() <= 1e-11 * (1. + cond) * x.abs() + 1e-290, || format!("event {}: weight {a} became {b}, should be {x} (threshold {m})", e.id))?;
        }
        tot += w[0];
    }
    if !cancel && s1 != 0. {
        let bound: f64 = got.iter().map(|g| weights_of(g)[0].abs()).sum::<f64>() + evs.iter().map(|e| e.w[0].abs()).sum::<f64>();
        ensure((tot - s0).abs() <= 1e-10 * (1. + cond) * bound, || format!("sum of weights {s0} became {tot}"))?;
    }
    Ok(kept.len() != evs.len() || evs.iter().any(|e| e.w[0].abs() < m))
}

pub fn c09(c: &mut Ctx) {
    let mut k = 0;
    let total = c.n(6000);
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = [0, 1, 2, 3, 8, 40][r.below(6)];
        let nw = if MULTI { 1 + r.below(3) } else { 1 };
        let style = r.below(6);
        let mut evs = sample(&mut r, n, nw, style, true);
        // ids need not be positions
        let mut ids: Vec<usize> = (0..2 * n).collect();
        r.shuffle(&mut ids);
        for (e, i) in evs.iter_mut().zip(ids) {
            e.id = i;
        }
        // threshold: a weight of the sample, zero, something else
        let m = match r.below(6) {
            0 => 0.,
            1 | 2 if n > 0 => evs[r.below(n)].w[0].abs(),
            3 => 1.,
            4 => 1e-300,
            _ => 3. * r.f(),
        };
        let mode = r.below(5);
        if r.chance(0.3) {
            // sums that cancel
            for i in 0..n / 2 {
                let w: Vec<f64> = evs[2 * i].w.iter().map(|w| -w).collect();
                evs[2 * i + 1].w = w;
            }
        }
        let seed = r.next();
        let nt = 1 + r.below(4);
        let desc = format!("unweight threshold {m:?}, random numbers {mode} seed {seed}, {nt} threads, events {:?}", evs.iter().map(|e| (e.id, &e.w)).collect::<Vec<_>>());
        c.case(&desc, || {
            let got = pool(nt).install(|| Unweighter::new(m, Mock(mode, Rng::new(seed), 0)).unweight(evs.iter().map(|e| e.event()).collect())).unwrap();
            let nontriv = check(&evs, m, &got)?;
            let mut no = NO_UNWEIGHTING;
            let same = no.unweight(evs.iter().map(|e| e.event()).collect()).unwrap();
            check(&evs, 0., &same)?;
            Ok(nontriv)
        });
    }
}
