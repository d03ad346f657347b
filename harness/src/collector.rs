//! C16: cell collectors
use crate::common::*;
use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::resampler::{DefaultResamplerBuilder, ResamplerBuilder};
use cres::seeds::SelectSeeds;
use cres::traits::{ObserveCell, Resample};
use rayon::prelude::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Mutex;

#[derive(Clone, Copy)]
struct LineDist;
impl Distance for LineDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        let x = |e: &Event| e.outgoing().first().map(|o| o.1[0][1]).unwrap_or(n64(0.));
        (x(a) - x(b)).abs()
    }
}

struct Seeds(Vec<usize>);
impl SelectSeeds for Seeds {
    type ParallelIter = rayon::vec::IntoIter<usize>;
    fn select_seeds(&self, _: &[Event]) -> Self::ParallelIter {
        self.0.clone().into_par_iter()
    }
}

#[derive(Clone, Debug)]
struct Seen {
    r: f64,
    n: usize,
    w: f64,
    ids: Vec<usize>,
}

struct Obs {
    cut: usize,
    parts: Vec<usize>,
    cc: Mutex<(Vec<CellCollector>, Vec<Vec<Seen>>, Rng, usize)>,
}

struct R2(Rng);
impl rand::RngCore for R2 {
    fn next_u32(&mut self) -> u32 {
        (self.0.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.0.next() as u8;
        }
    }
}

struct ObsRef<'a>(&'a Obs);
impl ObserveCell for ObsRef<'_> {
    fn observe_cell(&self, cell: &Cell) {
        let mut g = self.0.cc.lock().unwrap();
        let k = g.3;
        let i = if k < self.0.cut { self.0.parts[k % self.0.parts.len()] } else { 0 };
        g.3 += 1;
        let rng = R2(g.2.fork());
        g.0[i].collect(cell, rng);
        g.1[i].push(Seen { r: cell.radius().into(), n: cell.nmembers(), w: cell.weight_sum().into(), ids: cell.iter().map(|e| e.id()).collect() });
    }
}

/// cells by number: event ids with multiplicity
fn cells_of(c: &CellCollector) -> HashMap<usize, HashMap<usize, usize>> {
    let mut res: HashMap<usize, HashMap<usize, usize>> = HashMap::new();
    for (ev, cells) in c.event_cells() {
        for cell in cells {
            *res.entry(cell).or_default().entry(ev).or_default() += 1;
        }
    }
    res
}

/// does the collector hold the right ones of the cells seen
fn check(c: &CellCollector, seen: &[Seen]) -> Result<(), String> {
    let cells = cells_of(c);
    let n = seen.len();
    let low = n.min(10);
    let mut total = 0;
    let mut lo = vec![0usize; n];
    let mut hi = vec![1usize; n];
    for i in 0..low {
        lo[i] += 1;
        hi[i] += 1;
    }
    for key in 0..3 {
        let val = |i: usize| match key {
            0 => seen[i].r,
            1 => seen[i].n as f64,
            _ => seen[i].w,
        };
        for i in 0..n {
            let more = (0..n).filter(|&j| val(j) > val(i)).count();
            let same = (0..n).filter(|&j| val(j) == val(i)).count();
            if more + same <= 10 {
                lo[i] += 1;
                hi[i] += 1;
            } else if more < 10 {
                hi[i] += 1;
            }
        }
    }
    for (&k, evs) in &cells {
        ensure(k < n, || format!("cell number {k}, but only {n} cells were observed"))?;
        let mut want = seen[k].ids.clone();
        want.sort_unstable();
        let mut have: Vec<_> = evs.keys().copied().collect();
        have.sort_unstable();
        let m = *evs.values().next().unwrap();
        ensure(have == want && evs.values().all(|&v| v == m), || format!("cell {k} has events {evs:?}, observed were {want:?}"))?;
        ensure(lo[k] <= m && m <= hi[k], || format!("cell {k} {:?} is kept {m} times, expected {} to {}; all cells: {seen:?}", seen[k], lo[k], hi[k]))?;
        total += m;
    }
    for k in 0..n {
        ensure(lo[k] == 0 || cells.contains_key(&k), || format!("cell {k} {:?} is missing; all cells: {seen:?}", seen[k]))?;
    }
    ensure(total == 5 * low, || format!("{total} cells are kept after {n} observations"))
}

fn sub(r: &mut Rng, c: &mut Ctx) {
    let ties = r.chance(0.4);
    let n = *r.pick(&[1usize, 2, 5, 9, 10, 11, 12, 21, 40, 80]);
    let mut x = 0.;
    let raw: Vec<Raw> = (0..n)
        .map(|i| {
            x += if ties { r.range(1, 2) as f64 } else { 1. + 3. * r.f() };
            let w = if r.chance(0.5) { -((1 + r.below(6)) as f64) } else { r.below(4) as f64 };
            let w = if ties { w } else { w + r.f() / 2. };
            Raw { id: 3 * i + 1, w: vec![w], parts: vec![(1, [1e3, x, 0., 0.])] }
        })
        .collect();
    let ncoll = 1 + r.below(3);
    let parts: Vec<usize> = (0..1 + r.below(5)).map(|_| r.below(ncoll)).collect();
    let cut = if r.chance(0.3) { r.below(n + 1) } else { n };
    let seeds: Vec<usize> = {
        let mut s: Vec<_> = (0..n).collect();
        r.shuffle(&mut s);
        s
    };
    let max = if r.chance(0.3) { Some(r.below(5) as f64) } else { None };
    let s1 = r.next();
    let desc = format!("cells of events {raw:?}, seeds {seeds:?}, maximum size {max:?}, into collectors {parts:?} (first {cut}), random seed {s1}");
    c.case(&desc, || {
        let obs = Obs { cut, parts, cc: Mutex::new((vec![CellCollector::new(); ncoll], vec![vec![]; ncoll], Rng::new(s1), 0)) };
        pool(1)
            .install(|| {
                ResamplerBuilder::default().distance(LineDist).seeds(Seeds(seeds)).max_cell_size(max).observer(ObsRef(&obs)).build().resample(raw.iter().map(|e| e.event()).collect())
            })
            .map_err(|e| format!("{e}"))?;
        let (ccs, seen, mut rng, tot) = obs.cc.into_inner().unwrap();
        for (cc, s) in ccs.iter().zip(&seen) {
            check(cc, s)?;
        }
        // combined: the cells of later ones come after those of earlier ones
        let right = rng.chance(0.5);
        let mut it = ccs.into_iter().zip(seen);
        if right {
            let mut all: Vec<_> = it.collect();
            let (mut acc, mut sa) = all.pop().unwrap();
            while let Some((cc, s)) = all.pop() {
                acc = cc.combine(acc, &mut R2(rng.fork()));
                sa = [s, sa].concat();
                check(&acc, &sa).map_err(|e| format!("after combining: {e}"))?;
            }
        } else {
            let (mut acc, mut sa) = it.next().unwrap();
            for (cc, s) in it {
                acc = acc.combine(cc, &mut R2(rng.fork()));
                sa.extend(s);
                check(&acc, &sa).map_err(|e| format!("after combining: {e}"))?;
            }
        }
        Ok(tot > 10)
    });
}

/// the complete chain: isolated negative events, each a cell of its own
fn full(r: &mut Rng, c: &mut Ctx) {
    let n = *r.pick(&[3usize, 8, 12, 25, 60]);
    let nt = *r.pick(&[1usize, 2, 4]);
    let mut ws: Vec<f64> = (0..n).map(|i| -1. - i as f64).collect();
    r.shuffle(&mut ws);
    let raw: Vec<Raw> = (0..n).map(|i| Raw { id: i, w: vec![ws[i]], parts: vec![(1, [1e5, 100. * i as f64, 0., 0.])] }).collect();
    let runs = 1 + r.below(3);
    let desc = format!("{runs} runs over isolated events with weights {ws:?} on {nt} threads, one collector");
    c.case(&desc, || {
        let cc = Rc::new(RefCell::new(CellCollector::new()));
        let mut evs: Vec<_> = raw.iter().map(|e| e.event()).collect();
        let p = pool(nt);
        for run in 1..=runs {
            let mut rs = DefaultResamplerBuilder::default().max_cell_size(Some(1.)).cell_collector(Some(cc.clone())).build();
            evs = {
                // the resampler is not Send: only its parallel iterators run in the pool
                struct S<T>(T);
                unsafe impl<T> Send for S<T> {}
                let s = S((&mut rs, std::mem::take(&mut evs)));
                let out = p.install(move || {
                    let s = s;
                    let S((rs, evs)) = s;
                    S(rs.resample(evs).map_err(|e| format!("{e}")))
                });
                out.0?
            };
            let tot = n * run;
            let cells = cells_of(&cc.borrow());
            let mut mult = vec![0usize; n];
            let mut numbers = vec![0usize; n];
            let mut sum = 0;
            for (k, evs) in &cells {
                ensure(*k < tot, || format!("cell number {k} of {tot}"))?;
                ensure(evs.len() == 1, || format!("cell {k} has events {evs:?}"))?;
                let (&e, &m) = evs.iter().next().unwrap();
                ensure(m <= 5, || format!("cell {k} is kept {m} times"))?;
                mult[e] += m;
                numbers[e] += 1;
                sum += m;
            }
            ensure(sum == 5 * tot.min(10), || format!("{sum} cells are kept after {tot} observations"))?;
            for e in 0..n {
                ensure(numbers[e] <= run, || format!("event {e} was in {run} cells, but {} different ones are kept", numbers[e]))?;
                // largest by weight
                let above = run * ws.iter().filter(|&&w| w > ws[e]).count();
                if above + run <= 10 {
                    ensure(mult[e] >= run, || format!("run {run}: event {e} of weight {} is kept {} times, cells {cells:?}", ws[e], mult[e]))?;
                }
            }
        }
        Ok(n * runs > 10)
    });
}

pub fn c16(c: &mut Ctx) {
    let mut k = 0;
    let total = c.n(3000);
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        if k % 10 == 0 {
            full(&mut r, c);
        } else {
            sub(&mut r, c);
        }
    }
}
