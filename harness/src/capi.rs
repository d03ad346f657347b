//! C17: the C interface
use crate::common::*;
use cres::c_api::distance::DistanceFn;
use cres::c_api::event::{EventView, TypeSet};
use std::ffi::{c_char, c_void, CString};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;

/// the layout of the options in the C header
#[repr(C)]
struct Opt {
    infiles: *mut *mut c_char,
    n_infiles: usize,
    outdir: *mut c_char,
    distance: *mut DistanceFn,
    ptweight: f64,
    algorithm: u32,
    radius: f64,
    min_pt: f64,
    search: u32,
    max_cell_size: f64,
}

extern "C" {
    fn cres_run(opt: *const Opt) -> i32;
    fn cres_get_last_err(buf: *mut c_char, buflen: usize) -> i32;
    fn cres_print_last_err();
}

/// what a distance function saw
#[derive(Clone, Debug, PartialEq, Default)]
struct Seen {
    id: usize,
    w: Vec<u64>,
    sets: Vec<(i32, Vec<[u64; 4]>)>,
}

#[derive(Default)]
struct Probe {
    calls: Vec<(Seen, Seen)>,
    back: Vec<(Event, Event)>,
    ret: f64,
}

fn look(v: &EventView) -> Seen {
    let w = unsafe { slice(v.weights, v.n_weights) };
    let t = unsafe { slice(v.type_sets, v.n_type_sets) };
    Seen {
        id: v.id,
        w: w.iter().map(|w| w.to_bits()).collect(),
        sets: t.iter().map(|t| (t.pid, unsafe { slice(t.momenta, t.n_momenta) }.iter().map(|p| p.map(|x| x.to_bits())).collect())).collect(),
    }
}

unsafe fn slice<'a, T>(p: *const T, n: usize) -> &'a [T] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }
}

fn seen(e: &Event) -> Seen {
    Seen {
        id: e.id(),
        w: weights_of(e).iter().map(|w| w.to_bits()).collect(),
        sets: e.outgoing().iter().map(|(t, ps)| (t.id(), ps.iter().map(|p| [0, 1, 2, 3].map(|i| f64::from(p[i]).to_bits())).collect())).collect(),
    }
}

unsafe fn probe(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    let p = &*(data as *const Mutex<Probe>);
    let mut p = p.lock().unwrap();
    p.calls.push((look(a), look(b)));
    p.back.push((Event::from(*a), Event::from(*b)));
    p.ret
}

fn raw(r: &mut Rng, id: usize) -> Raw {
    let ids = [1, -1, 21, 22, 11, -11, 2212, -2112, 0, i32::MAX, 1000022];
    let np = r.below(8);
    Raw {
        id,
        w: { let n = r.below(5); (0..n).map(|_| weight(r, 4)).collect() },
        parts: (0..np).map(|_| (*r.pick(&ids), if r.chance(0.3) { int_mom(r, 2) } else { real_mom(r) })).collect(),
    }
}

fn same_event(a: &Event, b: &Event) -> Result<(), String> {
    ensure(seen(a) == seen(b), || format!("the view converts to {a:?}, the event is {b:?}"))
}

/// content of the error buffer and the return value, with canaries around the buffer
fn last_err(len: usize) -> Result<(i32, Vec<u8>), String> {
    const PAD: usize = 64;
    let mut buf = vec![0xa5u8; len + 2 * PAD];
    let rc = unsafe { cres_get_last_err(buf.as_mut_ptr().add(PAD) as *mut c_char, len) };
    if let Some(i) = (0..PAD).find(|&i| buf[i] != 0xa5) {
        return Err(format!("cres_get_last_err with a buffer of {len} bytes wrote {} bytes in front of it", PAD - i));
    }
    if let Some(i) = (PAD + len..len + 2 * PAD).find(|&i| buf[i] != 0xa5) {
        return Err(format!("cres_get_last_err with a buffer of {len} bytes wrote byte {}", i - PAD));
    }
    Ok((rc, buf[PAD..PAD + len].to_vec()))
}

/// complete message of the last error
fn message() -> Result<Option<Vec<u8>>, String> {
    let n = 1 << 16;
    let (rc, b) = last_err(n)?;
    ensure(rc == 0, || format!("cres_get_last_err with {n} bytes returns {rc}"))?;
    if b.iter().all(|&b| b == 0xa5) { return Ok(None); }
    let end = b.iter().position(|&b| b == 0).ok_or("no NUL byte at the end of the error message")?;
    ensure(b[end + 1..].iter().all(|&b| b == 0xa5), || format!("something written after the NUL byte at {end}"))?;
    Ok(Some(b[..end].to_vec()))
}

fn check_message(want: impl Fn(&str) -> bool, what: &str) -> Result<(), String> {
    let m = message()?.ok_or_else(|| format!("{what}: no error message"))?;
    let txt = String::from_utf8_lossy(&m).to_string();
    ensure(want(&txt), || format!("{what}: the last error is '{txt}'"))?;
    let n = m.len();
    for len in (0..n + 40).chain([2 * n, 4 * n + 3]) {
        let (rc, b) = last_err(len)?;
        if len > n {
            ensure(rc == 0, || format!("buffer of {len} bytes for a message of {n} bytes: returns {rc} instead of 0"))?;
        } else {
            ensure(rc == n as i32 + 1, || format!("buffer of {len} bytes for a message of {n} bytes: returns {rc} instead of the size needed, {}", n + 1))?;
        }
        if len == 0 { continue; }
        let k = n.min(len - 1);
        ensure(b[..k] == m[..k] && b[k] == 0, || format!("buffer of {len} bytes: '{}' instead of the first {k} bytes of '{txt}' and a NUL byte", String::from_utf8_lossy(&b)))?;
        ensure(b[k + 1..].iter().all(|&b| b == 0xa5), || format!("buffer of {len} bytes: something written after the NUL byte at {k}"))?;
    }
    Ok(())
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Bad { None, Missing, Malformed, OutFile, NoName, PtNaN, DistPanic(i64), DistNaN(i64), Twice }

static CALLS: AtomicI64 = AtomicI64::new(0);
static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static FAIL_NAN: AtomicI64 = AtomicI64::new(0);

unsafe fn dist(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    let n = CALLS.fetch_add(1, Ordering::SeqCst);
    if n == FAIL_AT.load(Ordering::SeqCst) {
        if FAIL_NAN.load(Ordering::SeqCst) == 1 { return f64::NAN; }
        panic!("panic in the distance function");
    }
    if data as usize != 0x1234 { return f64::NAN; }
    let s = |v: &EventView| slice(v.type_sets, v.n_type_sets).iter()
        .flat_map(|t| slice(t.momenta, t.n_momenta)).map(|p| p[1] + 2. * p[2]).sum::<f64>();
    (s(a) - s(b)).abs()
}

/// HepMC file with valid events
fn small_hepmc(r: &mut Rng, n: usize) -> String {
    let mut s = String::from("HepMC::Version 2.06.09\nHepMC::IO_GenEvent-START_EVENT_LISTING\n");
    for i in 0..n {
        let w = weight(r, 2);
        let np = 2 + r.below(2);
        s += &format!("E {i} -1 -1.0 1.0 1.0 20 -1 1 1 2 0 1 {w}\nU GEV MM\nF 21 21 1e-1 1e-1 1e2 0 0 0 0\nV -1 0 0 0 0 0 0 {np} 0\n");
        for k in 0..np {
            let p = real_mom(r);
            s += &format!("P {} {} {} {} {} {} 0 1 0 0 0 0\n", k + 1, if k == 0 { 11 } else { 1 }, p[1], p[2], p[3], p[0]);
        }
    }
    s + "HepMC::IO_GenEvent-END_EVENT_LISTING\n"
}

fn run_case(r: &mut Rng, bad: Bad) -> Result<bool, String> {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let nf = 1 + r.below(3);
    let mut paths = vec![];
    for k in 0..nf {
        let extra = ["", "a", "some-longer-name", "ü", "x y"][r.below(5)];
        let p = dir.path().join(format!("in{k}{extra}.hepmc"));
        let n = 1 + r.below(6);
        let mut t = small_hepmc(r, n);
        if bad == Bad::Malformed && k == nf - 1 {
            t = t.replacen("\nP 1 1", "\nP x 1", 1).replace("E 0 -1", "E 0 y");
            t = t.replacen(" 1 ", " ? ", 40);
        }
        std::fs::write(&p, t).unwrap();
        paths.push(p);
    }
    if matches!(bad, Bad::Missing | Bad::Twice) {
        let k = r.below(nf);
        std::fs::remove_file(&paths[k]).unwrap();
    }
    if bad == Bad::NoName { paths[0] = dir.path().join(".."); }
    let out = dir.path().join("out");
    if bad == Bad::OutFile { std::fs::write(&out, "").unwrap(); }
    let cs: Vec<CString> = paths.iter().map(|p| CString::new(p.to_str().unwrap()).unwrap()).collect();
    let mut ptrs: Vec<*mut c_char> = cs.iter().map(|c| c.as_ptr() as *mut c_char).collect();
    let outc = CString::new(out.to_str().unwrap()).unwrap();
    let mut d = DistanceFn { fun: dist, data: 0x1234 as *mut c_void };
    let own = r.chance(0.5) || matches!(bad, Bad::DistPanic(_) | Bad::DistNaN(_));
    CALLS.store(0, Ordering::SeqCst);
    FAIL_AT.store(match bad { Bad::DistPanic(n) | Bad::DistNaN(n) => n, _ => -1 }, Ordering::SeqCst);
    FAIL_NAN.store(matches!(bad, Bad::DistNaN(_)) as i64, Ordering::SeqCst);
    let opt = Opt {
        infiles: ptrs.as_mut_ptr(),
        n_infiles: nf,
        outdir: outc.as_ptr() as *mut c_char,
        distance: if own && bad != Bad::PtNaN { &mut d } else { std::ptr::null_mut() },
        ptweight: if bad == Bad::PtNaN { f64::NAN } else { r.f() },
        algorithm: r.below(3) as u32,
        radius: 0.4,
        min_pt: 10.,
        search: r.below(2) as u32,
        max_cell_size: if r.chance(0.5) { f64::INFINITY } else { 100. },
    };
    let before = message()?;
    let rc = unsafe { cres_run(&opt) };
    let hit = match bad { Bad::DistPanic(n) | Bad::DistNaN(n) => CALLS.load(Ordering::SeqCst) > n, _ => true };
    if bad == Bad::None || !hit {
        ensure(rc == 0, || format!("run without errors returns {rc}: {:?}", message().map(|m| m.map(|m| String::from_utf8_lossy(&m).to_string()))))?;
        ensure(message()? == before, || "a run without errors changes the last error".into())?;
        for p in &paths {
            let o = out.join(p.file_name().unwrap());
            ensure(o.exists(), || format!("no output {o:?} after a successful run"))?;
        }
        return Ok(false);
    }
    let what = format!("run with {bad:?}");
    match bad {
        Bad::NoName | Bad::PtNaN | Bad::DistPanic(_) | Bad::DistNaN(_) => {
            // a panic
            ensure(rc == -1, || format!("{what}: returns {rc} instead of -1"))?;
            check_message(|m| m.contains("panic"), &what)?;
        }
        _ => {
            ensure(rc != 0 && rc != -1, || format!("{what}: returns {rc}, although there was an error"))?;
            check_message(|m| !m.contains("panic: ") && !m.is_empty(), &what)?;
        }
    }
    if bad == Bad::Twice {
        // another error replaces it
        let o = Opt { ptweight: f64::NAN, distance: std::ptr::null_mut(), ..opt };
        let rc = unsafe { cres_run(&o) };
        ensure(rc == -1, || format!("run with a NaN: returns {rc}"))?;
        check_message(|m| m.contains("panic"), "panic after an error")?;
        std::fs::remove_dir_all(&out).ok();
        std::fs::write(&out, "").unwrap();
        let o = Opt { ptweight: 0., ..o };
        let rc = unsafe { cres_run(&o) };
        ensure(rc > 0, || format!("run with a file as output directory: returns {rc}"))?;
        check_message(|m| !m.contains("panic"), "error after a panic")?;
    }
    Ok(true)
}

pub fn c17(c: &mut Ctx) {
    // no error so far in this thread
    if c.cases == 0 {
    c.case("no error yet", || {
        for len in 0..40 {
            let (rc, b) = last_err(len)?;
            ensure(rc == 0, || format!("no error so far: returns {rc}"))?;
            ensure(b.iter().all(|&b| b == 0xa5) || b[0] == 0, || "no error so far, but something was written".into())?;
        }
        unsafe { cres_print_last_err() };
        Ok(true)
    });
    }
    // views of events
    for i in 0..c.n(1500) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let ida = r.below(1000);
        let a = raw(&mut r, ida);
        let idb = if r.chance(0.1) { usize::MAX } else { r.below(1000) };
        let b = raw(&mut r, idb);
        let ret = [0., r.f(), 1e300, f64::INFINITY, f64::MIN_POSITIVE, 1. / 3.][i % 6];
        c.case(&format!("user-defined distance {ret} between {a:?} and {b:?}"), || {
            let (ea, eb) = (a.event(), b.event());
            let p = Mutex::new(Probe { ret, ..Default::default() });
            let d = DistanceFn { fun: probe, data: &p as *const _ as *mut c_void };
            let res = f64::from(d.distance(&ea, &eb));
            let p = p.into_inner().unwrap();
            ensure(res == ret, || format!("distance is {res}, the user's function returned {ret}"))?;
            ensure(p.calls.len() == 1, || format!("user's function called {} times", p.calls.len()))?;
            let (sa, sb) = &p.calls[0];
            ensure(*sa == seen(&ea), || format!("the view of the first event shows {}, the event is {}", show(sa), show(&seen(&ea))))?;
            ensure(*sb == seen(&eb), || format!("the view of the second event shows {}, the event is {}", show(sb), show(&seen(&eb))))?;
            same_event(&p.back[0].0, &ea)?;
            same_event(&p.back[0].1, &eb)?;
            Ok(!a.parts.is_empty() && !b.parts.is_empty())
        });
    }
    // events from any view: types in any order, repeated, without momenta
    for _ in 0..c.n(1500) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let id = r.below(1 << 40);
        let mut a = raw(&mut r, id);
        let nsets = r.below(6);
        let ids = [1, -1, 21, 22, 5];
        let sets: Vec<TypeSet> = (0..nsets).map(|_| TypeSet {
            pid: *r.pick(&ids),
            momenta: { let n = r.below(4); (0..n).map(|_| real_mom(&mut r)).collect() },
        }).collect();
        a.parts = sets.iter().flat_map(|s| s.momenta.iter().map(|&p| (s.pid, p))).collect();
        c.case(&format!("event from the view {sets:?} weights {:?} id {}", a.w, a.id), || {
            let views: Vec<_> = sets.iter().map(TypeSet::view).collect();
            for (v, s) in views.iter().zip(&sets) {
                ensure(v.pid == s.pid && unsafe { slice(v.momenta, v.n_momenta) } == &s.momenta[..], || format!("view of {s:?} is {v:?}"))?;
            }
            let v = EventView { id: a.id, weights: a.w.as_ptr(), n_weights: a.w.len(), type_sets: views.as_ptr(), n_type_sets: views.len() };
            same_event(&Event::from(v), &a.event())?;
            Ok(a.parts.len() > 1)
        });
    }
    // runs
    for i in 0..c.n(150) {
        if !c.more() { break; }
        let mut r = c.rng.fork();
        let n = [0, 1, 5, 12][r.below(4)];
        let bad = [Bad::None, Bad::Missing, Bad::Malformed, Bad::OutFile, Bad::NoName, Bad::PtNaN, Bad::DistPanic(n), Bad::DistNaN(n), Bad::Twice][i % 9];
        let seed = r.next();
        c.case(&format!("run of the resampler with {bad:?}, seed {seed}"), || run_case(&mut Rng::new(seed), bad));
    }
}

fn show(s: &Seen) -> String {
    format!("id {} weights {:?} particles {:?}", s.id, s.w.iter().map(|&w| f64::from_bits(w)).collect::<Vec<_>>(),
        s.sets.iter().map(|(t, p)| (t, p.iter().map(|p| p.map(f64::from_bits)).collect::<Vec<_>>())).collect::<Vec<_>>())
}
