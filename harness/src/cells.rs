//! C01, C02, C03: resampling, single cells, cell construction
use crate::common::*;
use cres::cell::Cell;
use cres::distance::DistWrapper;
use cres::neighbour_search::{NaiveNeighbourSearch, NeighbourSearch, NeighbourSearchAlgo, TreeSearch};
use cres::resampler::{DefaultResamplerBuilder, ResamplerBuilder};
use cres::seeds::{SelectSeeds, StrategicSelector, Strategy};
use cres::traits::{ObserveCell, Resample};
use rayon::prelude::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// distance on the line spanned by the first momentum: exact for small integers
#[derive(Clone, Copy)]
struct LineDist;
impl Distance for LineDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        let x = |e: &Event| e.outgoing().first().map(|o| o.1[0][1]).unwrap_or(n64(0.));
        (x(a) - x(b)).abs()
    }
}

/// all events coincide
#[derive(Clone, Copy)]
struct ZeroDist;
impl Distance for ZeroDist {
    fn distance(&self, _: &Event, _: &Event) -> N64 {
        n64(0.)
    }
}

struct Seeds(Vec<usize>);
impl SelectSeeds for Seeds {
    type ParallelIter = rayon::vec::IntoIter<usize>;
    fn select_seeds(&self, _: &[Event]) -> Self::ParallelIter {
        self.0.clone().into_par_iter()
    }
}

const STRATEGIES: [Strategy; 3] = [Strategy::LeastNegative, Strategy::MostNegative, Strategy::Next];

#[derive(Clone, Debug)]
struct Setup {
    naive: bool,
    dist: usize,
    seeds: usize,
    strategy: usize,
    max: Option<f64>,
    threads: usize,
    tau: f64,
    explicit: Vec<usize>,
}

fn setup(r: &mut Rng, n: usize) -> Setup {
    Setup {
        naive: r.chance(0.4),
        dist: r.below(3),
        seeds: r.below(4),
        strategy: r.below(3),
        max: match r.below(6) {
            0 => Some(0.),
            1 => Some(1.),
            2 => Some(2.5),
            3 => Some(50. * r.f()),
            _ => None,
        },
        threads: *r.pick(&[1, 2, 8]),
        tau: if r.chance(0.5) { 0. } else { 3. * r.f() },
        explicit: if n == 0 { vec![] } else { (0..r.below(2 * n + 1)).map(|_| r.below(n)).collect() },
    }
}

fn run(s: &Setup, events: Vec<Event>) -> Result<Vec<Event>, String> {
    macro_rules! go {
        ($d:expr) => {{
            let b = ResamplerBuilder::default().distance($d).max_cell_size(s.max);
            match (s.naive, s.seeds) {
                (false, 0) => b.seeds(Seeds(s.explicit.clone())).build().resample(events),
                (true, 0) => b
                    .seeds(Seeds(s.explicit.clone()))
                    .neighbour_search::<NaiveNeighbourSearch>()
                    .build()
                    .resample(events),
                (false, _) => b.seeds(StrategicSelector::new(STRATEGIES[s.strategy])).build().resample(events),
                (true, _) => b
                    .seeds(StrategicSelector::new(STRATEGIES[s.strategy]))
                    .neighbour_search::<NaiveNeighbourSearch>()
                    .build()
                    .resample(events),
            }
            .map_err(|e| format!("error {e}"))
        }};
    }
    match s.dist {
        0 => go!(LineDist),
        1 => go!(EuclWithScaledPt::new(n64(s.tau))),
        _ if s.seeds == 1 => {
            // the complete default chain
            let b = DefaultResamplerBuilder::default()
                .ptweight(s.tau)
                .strategy(STRATEGIES[s.strategy])
                .max_cell_size(s.max);
            let cc = if s.explicit.len() % 2 == 0 {
                None
            } else {
                Some(std::rc::Rc::new(std::cell::RefCell::new(cres::cell_collector::CellCollector::new())))
            };
            let b = b.cell_collector(cc);
            if s.naive {
                b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events)
            } else {
                b.build().resample(events)
            }
            .map_err(|e| format!("error {e}"))
        }
        _ => go!(ZeroDist),
    }
}

pub fn c01(c: &mut Ctx) {
    let pools = [pool(1), pool(2), pool(8)];
    let mut k = 0;
    let sizes = [0, 1, 2, 3, 5, 8, 13, 21, 34, 60];
    let total = c.n(700);
    while c.more() && k < total {
        let mut r = c.rng.fork();
        let n = if k % 100 == 37 { 300 + r.below(900) } else if k < 10 { sizes[k] } else { *r.pick(&sizes) + r.below(4) };
        let n = if k < 10 { sizes[k] } else { n };
        k += 1;
        let nw = if MULTI { 1 + r.below(4) } else { 1 };
        let style = r.below(6);
        let ints = r.chance(0.6);
        let raw = sample(&mut r, n, nw, style, ints);
        let mut s = setup(&mut r, n);
        if n > 100 {
            s.naive = false;
        }
        let p = &pools[match s.threads { 1 => 0, 2 => 1, _ => 2 }];
        let desc = if n <= 60 { format!("{s:?} events {raw:?}") } else { format!("{s:?} {n} events from VERIF_SEED={} case {k}", c.seed) };
        c.case(&desc, || {
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let before: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let after = p.install(|| {
                // Rc inside the default resampler: everything is built on this thread
                run(&s, events)
            })?;
            let mut changed = false;
            ensure(after.len() == n, || format!("{} events in, {} events out", n, after.len()))?;
            let mut sums = vec![(0f64, 0f64, 0f64); nw];
            for (a, b) in after.iter().zip(&before) {
                ensure(a.id == b.id, || format!("event {} now at the position of {}", a.id, b.id))?;
                ensure(a.outgoing() == b.outgoing(), || format!("momenta of event {} changed", b.id))?;
                let (wa, wb) = (weights_of(a), weights_of(b));
                ensure(wa.len() == wb.len(), || format!("event {} has {} weights instead of {}", b.id, wa.len(), wb.len()))?;
                changed |= wa != wb;
                for i in 0..wa.len() {
                    sums[i].0 += wa[i];
                    sums[i].1 += wb[i];
                    sums[i].2 += wb[i].abs();
                }
            }
            for (i, (a, b, t)) in sums.iter().enumerate() {
                ensure(close(*a, *b, *t), || format!("sum of weight {i} was {b:e}, is {a:e} (sum of magnitudes {t:e})"))?;
            }
            Ok(changed)
        });
    }
}

/// a neighbour search handing out a fixed list
struct Fixed(Vec<(usize, N64)>);
impl NeighbourSearch for &Fixed {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _: &usize) -> Self::Iter {
        self.0.clone().into_iter()
    }
}

pub fn c02(c: &mut Ctx) {
    let total = c.n(1500);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = 1 + r.below(if k % 10 == 0 { 40 } else { 9 });
        let nw = if MULTI { 1 + r.below(5) } else { 1 };
        let style = r.below(5);
        let mut raw = sample(&mut r, n, nw, style, true);
        let seed = r.below(n);
        raw[seed].w[0] = -1. - r.below(20) as f64;
        let mut others: Vec<usize> = (0..n).filter(|&i| i != seed).collect();
        r.shuffle(&mut others);
        others.truncate(r.below(n + 1));
        let list: Vec<_> = others.iter().enumerate().map(|(d, &i)| (i, n64(d as f64))).collect();
        let desc = format!("seed {seed} neighbours {others:?} events {raw:?}");
        c.case(&desc, || {
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let mut cell = Cell::new(&events, seed, &Fixed(list));
            let mut ids: Vec<usize> = cell.iter().map(|e| e.id).collect();
            cell.resample();
            ids.sort();
            let mut ids2: Vec<usize> = cell.iter().map(|e| e.id).collect();
            ids2.sort();
            ensure(ids == ids2, || format!("members {ids:?} became {ids2:?}"))?;
            for i in 0..nw {
                let sum: f64 = ids.iter().map(|&m| raw[m].w[i]).sum();
                let abs: f64 = ids.iter().map(|&m| raw[m].w[i].abs()).sum();
                let mean = sum / ids.len() as f64;
                for (j, e) in events.iter().enumerate() {
                    let w = weights_of(e);
                    ensure(w.len() == nw, || format!("event {j} has {} weights instead of {nw}", w.len()))?;
                    if ids.contains(&j) {
                        ensure(close(w[i], mean, abs), || {
                            format!("weight {i} of member {j} of cell {ids:?} is {:e}, the mean is {mean:e}", w[i])
                        })?;
                    } else {
                        ensure(w[i] == raw[j].w[i], || {
                            format!("weight {i} of event {j} outside the cell {ids:?} changed from {:e} to {:e}", raw[j].w[i], w[i])
                        })?;
                    }
                }
            }
            Ok(ids.len() > 1)
        });
    }
    // overlapping cells, concurrently: no deadlock, totals preserved, means attained
    let rounds = c.n(6);
    for round in 0..rounds {
        if !c.more() {
            break;
        }
        let mut r = c.rng.fork();
        let n = 3 + r.below(6);
        let nw = if MULTI { 1 + r.below(3) } else { 1 };
        let style = round % 3;
        let mut raw = sample(&mut r, n, nw, style, true);
        for e in raw.iter_mut() {
            e.w[0] = -1. - r.below(9) as f64;
        }
        let lists: Vec<(usize, Vec<usize>)> = (0..8)
            .map(|_| {
                let mut l: Vec<usize> = (0..n).collect();
                r.shuffle(&mut l);
                l.truncate(2 + r.below(n - 1));
                (l[0], l[1..].to_vec())
            })
            .collect();
        let desc = format!("8 threads resampling the cells {lists:?} of {raw:?} 400 times each");
        c.case(&desc, || {
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            std::thread::scope(|s| {
                for (seed, rest) in &lists {
                    let events = &events;
                    s.spawn(move || {
                        let l: Vec<_> = rest.iter().enumerate().map(|(d, &i)| (i, n64(d as f64))).collect();
                        let f = Fixed(l);
                        for _ in 0..400 {
                            let mut cell = Cell::new(events, *seed, &f);
                            cell.resample();
                        }
                    });
                }
            });
            for i in 0..nw {
                let b: f64 = raw.iter().map(|e| e.w[i]).sum();
                let t: f64 = raw.iter().map(|e| e.w[i].abs()).sum();
                let a: f64 = events.iter().map(|e| weights_of(e)[i]).sum();
                ensure((a - b).abs() <= 1e-8 * t, || format!("concurrent resampling changed the sum of weight {i} from {b:e} to {a:e}"))?;
            }
            Ok(true)
        });
    }
}

#[derive(Clone, Default)]
struct Recorder(Arc<Mutex<Vec<(Vec<usize>, f64, f64, usize, usize)>>>);
impl ObserveCell for Recorder {
    fn observe_cell(&self, cell: &Cell) {
        let mut ids: Vec<usize> = cell.iter().map(|e| e.id).collect();
        ids.sort();
        self.0.lock().unwrap().push((
            ids,
            cell.radius().into(),
            cell.weight_sum().into(),
            cell.nmembers(),
            cell.nneg_weights(),
        ));
    }
}

fn check_cell<D: Distance>(events: &[Event], w: &[f64], seed: usize, d: &D, max: f64, cell: &Cell) -> Result<usize, String> {
    let ids: Vec<usize> = cell.iter().map(|e| e.id).collect();
    let dist = |i: usize| -> f64 { d.distance(&events[i], &events[seed]).into() };
    ensure(!ids.is_empty() && ids[0] == seed, || format!("cell {ids:?} does not start with its seed {seed}"))?;
    let mut uniq = ids.clone();
    uniq.sort();
    uniq.dedup();
    ensure(uniq.len() == ids.len(), || format!("cell {ids:?} has duplicate members"))?;
    let mut all: Vec<f64> = (0..events.len()).filter(|&i| i != seed).map(dist).filter(|&d| d <= max).collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut sum = w[seed];
    for (k, &i) in ids[1..].iter().enumerate() {
        ensure(sum < 0., || format!("cell {ids:?} grew although its weight was already {sum} with {} members", k + 1))?;
        ensure(k < all.len() && close(dist(i), all[k], all[k]), || {
            format!("member {i} of cell {ids:?} has distance {}, the next nearest distance is {:?}", dist(i), all.get(k))
        })?;
        sum += w[i];
    }
    ensure(sum >= 0. || ids.len() == all.len() + 1, || {
        format!("cell {ids:?} has weight {sum} and stopped with {} neighbours within {max} left", all.len() + 1 - ids.len())
    })?;
    let rad: f64 = cell.radius().into();
    let want = if ids.len() > 1 { dist(*ids.last().unwrap()) } else { 0. };
    ensure(close(rad, want, want), || format!("cell {ids:?} has radius {rad}, the last event is at {want}"))?;
    ensure(rad <= max, || format!("radius {rad} above the maximum {max}"))?;
    let ws: f64 = cell.weight_sum().into();
    ensure(close(ws, sum, ids.iter().map(|&i| w[i].abs()).sum()), || format!("cell {ids:?} has weight {ws}, the members sum to {sum}"))?;
    ensure(cell.nmembers() == ids.len(), || format!("cell {ids:?} reports {} members", cell.nmembers()))?;
    let nneg = ids.iter().filter(|&&i| w[i] < 0.).count();
    ensure(cell.nneg_weights() == nneg, || format!("cell {ids:?} reports {} negative weights, there are {nneg}", cell.nneg_weights()))?;
    Ok(ids.len())
}

pub fn c03(c: &mut Ctx) {
    default_chain(c);
    let total = c.n(700);
    let mut k = 0;
    let one = pool(1);
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = 1 + r.below(if k % 10 == 0 { 60 } else { 12 });
        let nw = if MULTI { 1 + r.below(2) } else { 1 };
        let style = r.below(4) % 4;
        let ints = r.chance(0.7);
        let mut raw = sample(&mut r, n, nw, style, ints);
        let seed = r.below(n);
        raw[seed].w[0] = -1. - r.below(6) as f64;
        let max = *r.pick(&[0., 1., 2., 3., 7.5, f64::MAX]);
        let line = r.chance(0.5);
        let tau = *r.pick(&[0., 1., 0.5]);
        let desc = format!("line {line} tau {tau} max {max} seed {seed} events {raw:?}");
        c.case(&desc, || {
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let w: Vec<f64> = raw.iter().map(|e| e.w[0]).collect();
            let mut m = 0;
            macro_rules! both {
                ($d:expr) => {{
                    let d = $d;
                    let t = TreeSearch::new_with_dist(n, DistWrapper::new(&d, &events), n64(max));
                    let cell = Cell::new(&events, seed, &t);
                    m = m.max(check_cell(&events, &w, seed, &d, max, &cell)?);
                    let t = NaiveNeighbourSearch::new_with_dist(n, DistWrapper::new(&d, &events), n64(max));
                    let cell = Cell::new(&events, seed, &t);
                    m = m.max(check_cell(&events, &w, seed, &d, max, &cell)?);
                }};
            }
            if line {
                both!(LineDist)
            } else {
                both!(EuclWithScaledPt::new(n64(tau)))
            }
            Ok(m > 1)
        });
    }
    // through the resampler, on one thread: every observed cell against a simulation
    let total = c.n(250);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = r.below(if k % 10 == 0 { 50 } else { 12 });
        let style = r.below(4);
        let mut raw = sample(&mut r, n, 1, style, false);
        if k % 3 == 0 {
            // generic weights: no accidental cancellations
            for e in raw.iter_mut() {
                e.w[0] = r.f() - 0.5;
            }
        }
        let seeds: Vec<usize> = if n == 0 { vec![] } else { (0..r.below(2 * n + 1)).map(|_| r.below(n)).collect() };
        let max = match r.below(3) { 0 => None, 1 => Some(100. * r.f()), _ => Some(300. * r.f()) };
        let naive = r.chance(0.5);
        let tau = *r.pick(&[0., 1.]);
        let desc = format!("resampler: naive {naive} tau {tau} max {max:?} seeds {seeds:?} events {raw:?}");
        c.case(&desc, || {
            let d = EuclWithScaledPt::new(n64(tau));
            let rec = Recorder::default();
            let events: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let reference: Vec<_> = raw.iter().map(|e| e.event()).collect();
            let b = ResamplerBuilder::default()
                .distance(d)
                .seeds(Seeds(seeds.clone()))
                .observer(rec.clone())
                .max_cell_size(max);
            let after = one
                .install(|| if naive { b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events) } else { b.build().resample(events) })
                .map_err(|e| format!("{e}"))?;
            let mut w: Vec<f64> = raw.iter().map(|e| e.w[0]).collect();
            let got = rec.0.lock().unwrap().clone();
            let mut it = got.iter();
            let mut big = false;
            for &s in &seeds {
                if w[s] >= 0. {
                    continue;
                }
                let mut nb: Vec<(f64, usize)> = (0..n)
                    .filter(|&i| i != s)
                    .map(|i| (d.distance(&reference[i], &reference[s]).into(), i))
                    .filter(|(d, _)| *d <= max.unwrap_or(f64::MAX))
                    .collect();
                nb.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let mut m = vec![s];
                let mut sum = w[s];
                let mut rad = 0.;
                let mut near_zero = false;
                for (dd, i) in nb {
                    m.push(i);
                    sum += w[i];
                    rad = dd;
                    near_zero |= sum.abs() < 1e-9;
                    if sum >= 0. {
                        break;
                    }
                }
                if near_zero || w.iter().any(|w| *w != 0. && w.abs() < 1e-12) {
                    // decided by rounding: the simulation ends here
                    return Ok(big);
                }
                m.sort();
                big |= m.len() > 2;
                let Some((ids, r, ws, nm, _)) = it.next() else {
                    return Err(format!("no cell for seed {s} although its weight is {}", w[s]));
                };
                ensure(*ids == m, || format!("cell of seed {s} has members {ids:?}, expected {m:?}"))?;
                ensure(*nm == m.len() && close(*r, rad, rad) && close(*ws, sum, 1.), || {
                    format!("cell of seed {s}: radius {r} (expected {rad}), weight {ws} ({sum}), size {nm} ({})", m.len())
                })?;
                let t: f64 = m.iter().map(|&i| w[i]).sum::<f64>() / m.len() as f64;
                for &i in &m {
                    w[i] = t;
                }
            }
            ensure(it.next().is_none(), || "more cells than seeds of negative weight".to_string())?;
            for (e, w) in after.iter().zip(&w) {
                ensure(close(e.weight().into(), *w, 1.), || format!("event {} has weight {} instead of {w}", e.id, e.weight()))?;
            }
            Ok(big)
        });
    }
    let _ = AtomicUsize::new(0).load(Ordering::Relaxed);
}

/// the default resampler does what the same resampler put together by hand does
pub fn default_chain(c: &mut Ctx) {
    let one = pool(1);
    let total = c.n(150);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = 3 + r.below(if k % 10 == 0 { 60 } else { 15 });
        let mut raw = sample(&mut r, n, 1, 0, false);
        for e in raw.iter_mut() {
            // no accidental ties
            e.w[0] = r.f() - 0.4;
        }
        let (strat, naive, order, collect) = (r.below(3), r.chance(0.5), r.below(3), r.chance(0.3));
        let tau = *r.pick(&[0., 0.5, 1., 5.]);
        let max = match r.below(3) { 0 => None, 1 => Some(100. * r.f()), _ => Some(300. * r.f()) };
        let desc = format!("default resampler: naive {naive} strategy {strat} tau {tau} max {max:?} order of settings {order} events {raw:?}");
        c.case(&desc, || {
            let events = || -> Vec<_> { raw.iter().map(|e| e.event()).collect() };
            let b = ResamplerBuilder::default()
                .distance(EuclWithScaledPt::new(n64(tau)))
                .seeds(StrategicSelector::new(STRATEGIES[strat]))
                .max_cell_size(max);
            let want = one
                .install(|| if naive { b.neighbour_search::<NaiveNeighbourSearch>().build().resample(events()) } else { b.build().resample(events()) })
                .map_err(|e| format!("{e}"))?;
            let got = one
                .install(|| {
                    let cc = if collect { Some(std::rc::Rc::new(std::cell::RefCell::new(cres::cell_collector::CellCollector::new()))) } else { None };
                    let b = DefaultResamplerBuilder::default();
                    macro_rules! all {
                        ($b:expr) => {
                            $b.strategy(STRATEGIES[strat]).max_cell_size(max).cell_collector(cc).ptweight(tau)
                        };
                    }
                    match (naive, order) {
                        (true, 0) => all!(b.neighbour_search::<NaiveNeighbourSearch>()).build().resample(events()),
                        (true, 1) => all!(b).neighbour_search::<NaiveNeighbourSearch>().build().resample(events()),
                        (true, _) => {
                            all!(b.neighbour_search::<TreeSearch>()).neighbour_search::<NaiveNeighbourSearch>().build().resample(events())
                        }
                        (false, 0) => all!(b).build().resample(events()),
                        (false, 1) => all!(b.neighbour_search::<NaiveNeighbourSearch>()).neighbour_search::<TreeSearch>().build().resample(events()),
                        (false, _) => all!(b).neighbour_search::<TreeSearch>().build().resample(events()),
                    }
                })
                .map_err(|e| format!("{e}"))?;
            let mut changed = false;
            for ((a, b), e) in got.iter().zip(&want).zip(&raw) {
                let (x, y): (f64, f64) = (a.weight().into(), b.weight().into());
                ensure(close(x, y, 1.), || format!("event {} gets weight {x} from the default resampler, {y} from one with the same settings put together by hand", a.id))?;
                changed |= x != e.w[0];
            }
            Ok(changed)
        });
    }
}
