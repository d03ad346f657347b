//! C15: every particle of an event goes to exactly one place
use crate::common::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition, NO_CLUSTERING};
use cres::traits::Clustering;
use jetty::{anti_kt_f, cambridge_aachen_f, kt_f, Cluster, PseudoJet};

type P4 = [f64; 4];

fn pj(p: &P4) -> PseudoJet {
    [n64(p[0]), n64(p[1]), n64(p[2]), n64(p[3])].into()
}

fn pt(p: &P4) -> f64 {
    (p[1] * p[1] + p[2] * p[2]).sqrt()
}

/// jets above the minimum transverse momentum
fn jets(objs: &[P4], alg: usize, r: f64, min_pt: f64) -> Vec<P4> {
    let v: Vec<PseudoJet> = objs.iter().map(pj).collect();
    let all = match alg {
        0 => v.cluster(anti_kt_f(r)),
        1 => v.cluster(kt_f(r)),
        _ => v.cluster(cambridge_aachen_f(r)),
    };
    all.into_iter().map(|j| [j.e().into(), j.px().into(), j.py().into(), j.pz().into()]).filter(|j| pt(j) > min_pt).collect()
}

fn jetdef(alg: usize, radius: f64, min_pt: f64) -> JetDefinition {
    let algorithm = match alg {
        0 => JetAlgorithm::AntiKt,
        1 => JetAlgorithm::Kt,
        _ => JetAlgorithm::CambridgeAachen,
    };
    JetDefinition { algorithm, radius, min_pt }
}

const NEUTRINOS: [i32; 4] = [12, 14, 16, 18];

struct Iso {
    frac: f64,
    radius: f64,
    min_pt: f64,
}

/// None: too close to the limit to tell
fn isolated(p: &P4, parts: &[(i32, P4)], d: &Iso) -> Option<bool> {
    if pt(p) < d.min_pt {
        return Some(false);
    }
    let me = pj(p);
    let mut sum = [0.; 4];
    for (id, q) in parts {
        if NEUTRINOS.contains(&id.abs()) || id.abs() == 13 {
            continue;
        }
        let dr: f64 = pj(q).delta_r(&me).into();
        if (dr - d.radius).abs() < 1e-9 {
            return None;
        }
        if dr < d.radius {
            for i in 0..4 {
                sum[i] += q[i];
            }
        }
    }
    for i in 0..4 {
        sum[i] -= p[i];
    }
    let et2 = sum[0] * sum[0] - sum[3] * sum[3];
    if et2 < -1e-9 {
        return None;
    }
    let lim = d.frac * et2.max(0.).sqrt();
    if (pt(p) - lim).abs() < 1e-6 {
        return None;
    }
    Some(pt(p) > lim)
}

fn mom(r: &mut Rng) -> P4 {
    // never along the beam, so that all rapidities are finite
    let ptv = [1., 5., 15., 25., 40., 80.][r.below(6)] * (0.8 + 0.4 * r.f());
    let phi = if r.chance(0.5) { r.below(6) as f64 + 0.1 * r.f() } else { 6.28 * r.f() };
    let y = 4. * (r.f() - 0.5);
    let m = if r.chance(0.3) { 5. * r.f() } else { 0. };
    let mt = (ptv * ptv + m * m).sqrt();
    [mt * y.cosh(), ptv * phi.cos(), ptv * phi.sin(), mt * y.sinh()]
}

fn hadrons() -> Vec<i32> {
    particle_id::hadrons::HADRONS.iter().map(|p| p.id()).collect()
}

fn same(a: &P4, b: &P4) -> bool {
    let s = a[0].abs().max(b[0].abs());
    (0..4).all(|i| (a[i] - b[i]).abs() <= 1e-9 * s)
}

pub fn c15(c: &mut Ctx) {
    let had = hadrons();
    let total = c.n(6000);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let np = if k % 10 == 0 { r.below(40) } else { r.below(12) };
        let mut parts = vec![];
        let nphot = r.below(4);
        for i in 0..np {
            let id = match r.below(12) {
                0..=2 => *r.pick(&[1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 21]),
                3 => {
                    let h = *r.pick(&had);
                    if r.chance(0.5) { -h } else { h }
                }
                4 => *r.pick(&[211, -211, 111, 2212, -2212, 130]),
                5 | 6 => *r.pick(&[11, -11, 13, -13]),
                7 => *r.pick(&[12, -12, 14, -14, 16, -16]),
                8 => *r.pick(&[6, -6, 15, -15, 23, 24, -24, 25, 7, 8]),
                9 => *r.pick(&[17, 18, 20, 32, 37, 39, 81, 82, 83]),
                _ => if i % 2 == 0 || nphot > 1 { 22 } else { 21 },
            };
            parts.push((id, mom(&mut r)));
        }
        let jd = (r.below(3), *r.pick(&[0.3, 0.4, 1.]), *r.pick(&[0., 10., 30.]));
        let ld = if r.chance(0.5) { Some((r.below(3), *r.pick(&[0.1, 0.5]), *r.pick(&[0., 10., 20.]))) } else { None };
        let pd = if r.chance(0.6) { Some((*r.pick(&[0.5, 1., 2.]), *r.pick(&[0.2, 0.4, 1.]), *r.pick(&[0., 10., 30.]))) } else { None };
        let nus = r.chance(0.4);
        let nw = if MULTI { 1 + r.below(3) } else { 1 };
        let raw = Raw { id: r.below(1000), w: (0..nw).map(|_| weight(&mut r, 2)).collect(), parts: parts.clone() };
        let desc = format!("jets {jd:?} leptons {ld:?} photons {pd:?} neutrinos {nus} {raw:?}");
        c.case(&desc, || {
            // without being told, neutrinos are dropped; the order of the settings is irrelevant
            let late = raw.id % 2 == 1;
            let mut cl = DefaultClustering::new(jetdef(jd.0, jd.1, jd.2));
            if !late && (nus || raw.id % 4 == 0) {
                cl = cl.include_neutrinos(nus);
            }
            if let Some(l) = ld {
                cl = cl.with_lepton_def(jetdef(l.0, l.1, l.2));
            }
            if let Some(p) = pd {
                cl = cl.with_photon_def(PhotonDefinition { min_e_fraction: p.0, radius: p.1, min_pt: p.2 });
            }
            if late && nus {
                cl = cl.include_neutrinos(nus);
            }
            let mut want: Vec<(i32, P4)> = vec![];
            let (mut tojets, mut tolep) = (vec![], vec![]);
            // in the order of the event: decreasing id, as built
            let ev = raw.event();
            let ordered: Vec<(i32, P4)> = ev.outgoing().iter().flat_map(|(id, ps)| ps.iter().map(|p| (id.id(), [p[0].into(), p[1].into(), p[2].into(), p[3].into()])).collect::<Vec<_>>()).collect();
            ensure(ordered.len() == parts.len(), || "the event has lost particles".into())?;
            for (id, p) in &ordered {
                let a = id.abs();
                if *id == 22 {
                    let iso = match pd {
                        None => false,
                        Some(d) => match isolated(p, &ordered, &Iso { frac: d.0, radius: d.1, min_pt: d.2 }) {
                            None => return Ok(false),
                            Some(x) => x,
                        },
                    };
                    if iso {
                        want.push((83, *p));
                    } else if ld.is_some() {
                        tolep.push(*p);
                    } else {
                        want.push((22, *p));
                    }
                } else if a <= 5 || *id == 21 || had.contains(&a) {
                    tojets.push(*p);
                } else if ld.is_some() && (a == 11 || a == 13) {
                    tolep.push(*p);
                } else if NEUTRINOS.contains(&a) && !nus {
                } else {
                    want.push((*id, *p));
                }
            }
            let near = |v: &[P4], m: f64| v.iter().any(|p| (pt(p) - m).abs() < 1e-9);
            let mut found = jets(&tojets, jd.0, jd.1, jd.2);
            if near(&jets(&tojets, jd.0, jd.1, -1.), jd.2) {
                return Ok(false);
            }
            let some = !found.is_empty() && !want.is_empty();
            want.extend(found.drain(..).map(|p| (81, p)));
            if let Some(l) = ld {
                if near(&jets(&tolep, l.0, l.1, -1.), l.2) {
                    return Ok(false);
                }
                want.extend(jets(&tolep, l.0, l.1, l.2).into_iter().map(|p| (82, p)));
            }
            let w0 = weights_of(&ev);
            let out = cl.cluster(ev).map_err(|e| format!("error {e}"))?;
            ensure(out.id() == raw.id, || format!("id {} instead of {}", out.id(), raw.id))?;
            ensure(weights_of(&out) == w0 && w0 == raw.w, || format!("weights {:?} instead of {:?}", weights_of(&out), raw.w))?;
            let mut got: Vec<(i32, P4)> = out.outgoing().iter().flat_map(|(id, ps)| ps.iter().map(|p| (id.id(), [p[0].into(), p[1].into(), p[2].into(), p[3].into()])).collect::<Vec<_>>()).collect();
            let all = format!("{got:?}");
            for (id, p) in &want {
                match got.iter().position(|(i, q)| i == id && same(p, q)) {
                    Some(n) => { got.swap_remove(n); }
                    None => return Err(format!("no particle of type {id} with momentum {p:?} in the clustered event {all}")),
                }
            }
            ensure(got.is_empty(), || format!("additional particles {got:?} in the clustered event"))?;
            let same_ev = NO_CLUSTERING.cluster(raw.event()).unwrap();
            ensure(same_ev.outgoing() == raw.event().outgoing() && same_ev.id() == raw.id && weights_of(&same_ev) == raw.w, || "an event is changed without clustering".into())?;
            Ok(some)
        });
    }
}
