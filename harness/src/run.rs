//! C11: each event's final weight reaches the record it came from
use crate::common::*;
use cres::cres::CresBuilder;
use cres::io::EventRecord;
use cres::traits::*;
use std::sync::{Arc, Mutex};

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
struct E(String);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    None,
    Read(usize),
    Convert(usize),
    Cluster(usize),
    Id(usize),
    Resample,
    Unweight,
    Update,
}

/// all there is to know about a run
#[derive(Clone, Debug)]
struct Plan {
    recs: Vec<Raw>,
    /// records that lose their particles in the clustering
    lost: Vec<bool>,
    hint: usize,
    fail: Fail,
    seed: u64,
    shuffle: bool,
    dropped: Vec<bool>,
    delays: usize,
}

struct Io {
    plan: Arc<Plan>,
    pos: usize,
    written: Arc<Mutex<Vec<Vec<Weights>>>>,
}

impl Iterator for Io {
    type Item = Result<EventRecord, E>;
    fn next(&mut self) -> Option<Self::Item> {
        let k = self.pos;
        self.pos += 1;
        if k >= self.plan.recs.len() {
            return None;
        }
        if self.plan.fail == Fail::Read(k) {
            return Some(Err(E("read".into())));
        }
        Some(Ok(EventRecord::HepMC(k.to_string())))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.plan.hint, None)
    }
}

impl UpdateWeights for Io {
    type Error = E;
    fn update_all_weights(&mut self, w: &[Weights]) -> Result<usize, E> {
        self.written.lock().unwrap().push(w.to_vec());
        if self.plan.fail == Fail::Update {
            return Err(E("update".into()));
        }
        Ok(w.len())
    }
    fn update_next_weights(&mut self, _: &Weights) -> Result<bool, E> {
        Err(E("single update".into()))
    }
}

fn spin(plan: &Plan, k: usize, what: u64) {
    if plan.delays > 0 {
        let n = Rng::new(plan.seed ^ (k as u64) << 8 ^ what).below(plan.delays);
        let t = std::time::Instant::now();
        while t.elapsed() < std::time::Duration::from_micros(n as u64) {
            std::hint::spin_loop();
        }
    }
}

struct Conv(Arc<Plan>);
impl TryConvert<EventRecord, Event> for Conv {
    type Error = E;
    fn try_convert(&self, r: EventRecord) -> Result<Event, E> {
        let EventRecord::HepMC(s) = r else { return Err(E("kind".into())) };
        let k: usize = s.parse().unwrap();
        spin(&self.0, k, 1);
        if self.0.fail == Fail::Convert(k) {
            return Err(E("convert".into()));
        }
        Ok(self.0.recs[k].event())
    }
}

/// the first weight identifies the record
struct Clus(Arc<Plan>);
impl Clustering for Clus {
    type Error = E;
    fn cluster(&self, ev: Event) -> Result<Event, E> {
        let k = self.0.recs.iter().position(|r| r.w[0] == f64::from(ev.weight())).unwrap();
        spin(&self.0, k, 2);
        if self.0.fail == Fail::Cluster(k) {
            return Err(E("cluster".into()));
        }
        let mut e = ev;
        if self.0.lost[k] {
            e = Raw { parts: vec![], ..self.0.recs[k].clone() }.event();
        }
        if self.0.fail == Fail::Id(k) {
            e.id = 3;
        }
        Ok(e)
    }
}

/// weights of the record at position k after resampling and unweighting
fn resampled(plan: &Plan, k: usize) -> Vec<f64> {
    plan.recs[k].w.iter().enumerate().map(|(i, w)| 3. * w + (k + 10 * i) as f64).collect()
}

fn unweighted(plan: &Plan, k: usize) -> Vec<f64> {
    let mut w: Vec<f64> = resampled(plan, k).iter().map(|w| -2. * w).collect();
    match (plan.seed as usize).wrapping_add(k * 7) % 9 {
        // single weights may vanish, all or none
        0 => w[0] = 0.,
        1 => *w.last_mut().unwrap() = 0.,
        2 => w.iter_mut().for_each(|w| *w = 0.),
        3 => w.iter_mut().for_each(|w| *w = -*w),
        4 => w.iter_mut().for_each(|w| *w *= 1e-300),
        _ => {}
    }
    w
}

fn set(e: &Event, w: &[f64]) {
    *e.weights.write() = mkweights(w);
}

struct Res(Arc<Plan>, Arc<Mutex<Vec<String>>>);
impl Resample for Res {
    type Error = E;
    fn resample(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, E> {
        let p = &self.0;
        let mut bad = vec![];
        for x in &e {
            if x.id >= p.recs.len() || weights_of(x) != p.recs[x.id].w {
                bad.push(format!("the resampler sees weights {:?} under the number {}", weights_of(x), x.id));
                continue;
            }
            if p.lost[x.id] || p.recs[x.id].parts.is_empty() {
                bad.push(format!("record {} without particles is resampled", x.id));
            }
            if x.outgoing() != p.recs[x.id].event().outgoing() {
                bad.push(format!("event {} does not have its momenta", x.id));
            }
            set(x, &resampled(p, x.id));
        }
        let want = (0..p.recs.len()).filter(|&k| !p.lost[k] && !p.recs[k].parts.is_empty()).count();
        if e.len() != want {
            bad.push(format!("{} events are resampled instead of {want}", e.len()));
        }
        self.1.lock().unwrap().extend(bad);
        if p.fail == Fail::Resample {
            return Err(E("resample".into()));
        }
        if p.shuffle {
            Rng::new(p.seed).shuffle(&mut e);
        }
        Ok(e)
    }
}

struct Unw(Arc<Plan>);
impl Unweight for Unw {
    type Error = E;
    fn unweight(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, E> {
        let p = &self.0;
        if p.fail == Fail::Unweight {
            return Err(E("unweight".into()));
        }
        e.retain(|x| !p.dropped[x.id]);
        for x in &e {
            set(x, &unweighted(p, x.id));
        }
        if p.shuffle {
            Rng::new(p.seed ^ 5).shuffle(&mut e);
        }
        Ok(e)
    }
}

fn check(plan: &Plan, nt: usize) -> Result<bool, String> {
    let n = plan.recs.len();
    let p = Arc::new(plan.clone());
    let written = Arc::new(Mutex::new(vec![]));
    let bad = Arc::new(Mutex::new(vec![]));
    let mut cres = CresBuilder {
        event_io: Io { plan: p.clone(), pos: 0, written: written.clone() },
        converter: Conv(p.clone()),
        clustering: Clus(p.clone()),
        resampler: Res(p.clone(), bad.clone()),
        unweighter: Unw(p.clone()),
    }
    .build();
    let res = pool(nt).install(|| cres.run()).map_err(|e| e.to_string());
    let written = written.lock().unwrap();
    let fails = match plan.fail {
        Fail::Read(k) | Fail::Convert(k) | Fail::Cluster(k) | Fail::Id(k) => k < n,
        Fail::None => false,
        _ => true,
    };
    ensure(res.is_err() == fails, || format!("with failure {:?} the run gives {res:?}", plan.fail))?;
    if fails {
        ensure(plan.fail == Fail::Update || written.is_empty(), || format!("weights are written after failure {:?}", plan.fail))?;
        return Ok(true);
    }
    if let Some(b) = bad.lock().unwrap().first() {
        return Err(b.clone());
    }
    ensure(written.len() == 1, || format!("weights are written {} times", written.len()))?;
    ensure(written[0].len() == n, || format!("{} sets of weights for {n} records", written[0].len()))?;
    for (k, w) in written[0].iter().enumerate() {
        let want = if plan.lost[k] || plan.recs[k].parts.is_empty() {
            plan.recs[k].w.clone()
        } else if plan.dropped[k] {
            vec![0.; plan.recs[k].w.len()]
        } else {
            unweighted(plan, k)
        };
        ensure(wvec(w) == want, || format!("record {k} is written with weights {:?} instead of {want:?}", wvec(w)))?;
    }
    Ok(n > 0)
}

pub fn c11(c: &mut Ctx) {
    let mut k = 0;
    let total = c.n(4000);
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = [0, 1, 2, 3, 5, 12, 60, 300][r.below(if k % 10 == 0 { 8 } else { 7 })];
        let nw = if MULTI { 1 + r.below(3) } else { 1 };
        let mut recs = sample(&mut r, n, nw, 0, true);
        let mut first: Vec<usize> = (0..2 * n).collect();
        r.shuffle(&mut first);
        for (e, f) in recs.iter_mut().zip(first) {
            e.id = 0;
            e.w[0] = 0.25 + f as f64;
            if r.chance(0.2) {
                e.w[0] = -e.w[0]; // the records are told apart by it
            }
            if r.chance(0.2) {
                e.parts.clear();
            }
            if MULTI && r.chance(0.1) {
                // numbers of weights need not agree for the bookkeeping
                e.w.push(1.5);
            }
        }
        let fail = match r.below(12) {
            0 => Fail::Read(r.below(n + 1)),
            1 => Fail::Convert(r.below(n + 1)),
            2 => Fail::Cluster(r.below(n + 1)),
            3 => Fail::Id(r.below(n + 1)),
            4 => *r.pick(&[Fail::Resample, Fail::Unweight, Fail::Update]),
            _ => Fail::None,
        };
        let mut flags = |p: f64| -> Vec<bool> { (0..n).map(|_| r.chance(p)).collect() };
        let lost = flags(0.2);
        let dropped = flags(0.3);
        let plan = Plan { lost, dropped, fail, hint: *r.pick(&[0, 1, n, 2 * n]), seed: r.next(), shuffle: r.chance(0.7), delays: *r.pick(&[0, 0, 40, 200]), recs };
        let nt = 1 + r.below(8);
        let desc = format!("run with {nt} threads: {plan:?}");
        c.case(&desc, || check(&plan, nt));
    }
}
