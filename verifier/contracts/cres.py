"""cres.rs: each event's final weight reaches the record it came from."""
from contracts.common import *

RUN = "cres::Cres::<R, C, Cl, S, U>::run"
READ = "cres::Cres::<R, C, Cl, S, U>::read_events"
N = z3.Int("number_of_records")
RDOK = z3.Function("record_can_be_read", I, B)
CVOK = z3.Function("record_can_be_converted", I, B)
AT = z3.Function("index_of_id", I, I)
WHERE = z3.Function("index_among_survivors", I, I)
RES, OPT = "std::result::Result", "std::option::Option"
REC = "io::EventRecord"


class Stage:
    """an arbitrary function from events to events that may fail"""

    def __init__(self, name, dom, sh):
        self.sh = sh
        self.f = [z3.Function("%s_%d" % (name, i), *dom, s) for i, s in enumerate(sorts(sh))]
        self.okf = z3.Function(name + "_ok", *dom, B)

    def __call__(self, args):
        return decode(self.sh, [f(*args) for f in self.f])

    def ok(self, args):
        return self.okf(*args)


def contracts(crate, multi):
    CF = [f["n"] for f in crate.adts["cres::Cres"]["variants"][0]["f"]]
    fIO, fR, fU = CF.index("event_io"), CF.index("resampler"), CF.index("unweighter")
    K = z3.Int("which_weight")
    cache = {}

    def stages(eng):
        if not cache:
            sh = eng.shape({"k": "adt", "p": "event::Event", "a": []})
            cache["conv"] = Stage("convert", [I], sh)
            cache["clus"] = Stage("cluster", sorts(sh), sh)
        return cache["conv"], cache["clus"]

    def leaves(v, sh):
        facts = []
        ls = encode(sh, v, facts)
        if facts:
            raise Unsupported("event with an offset")
        return ls

    def expected(eng, r):
        """(usable?, id before numbering, event) of record r"""
        conv, clus = stages(eng)
        a = [zi(r)]
        e = leaves(conv(a), conv.sh)
        f = clus(e)
        good = z3.And(RDOK(zi(r)), conv.ok(a), clus.ok(e), zi(f.f[EV_ID]) == 0)
        return good, f

    def same(eng, e, r):
        """e is the event of record r, under the number r"""
        good, f = expected(eng, r)
        x = leaves(e, stages(eng)[0].sh)
        y = leaves(f, stages(eng)[0].sh)
        # the id comes first
        return z3.And(good, x[0] == zi(r), *[p == q for p, q in zip(x[1:], y[1:])])

    # ---------------------------------------------------------------- the world outside
    def m_hint(eng, st, a, info):
        lo = fresh("hint", I)
        st.fact(lo >= 0, lo < 2 ** 63)
        return [(st, Agg("tuple", [lo, EnumV(OPT, fresh("d", I), {0: Agg(OPT, []), 1: Agg(OPT, [fresh("hi", I)])})]))]

    def m_enumerate(eng, st, a, info):
        v = a[0]
        if not isinstance(v, Ptr) or isinstance(eng.load(st, v), It):
            return NotImplemented
        if isinstance(eng.load(st, v), Opaque):
            raise Unsupported("the records are read twice")
        eng.assign(st, v, Opaque("stream at its end"))

        def at(k):
            k = zi(k)
            return EnumV(RES, z3.If(RDOK(k), z3.IntVal(0), z3.IntVal(1)), {0: Agg(RES, [k]), 1: Agg(RES, [Opaque("R::Error")])})
        return [(st, It(N, at, 0, (("enumerate", 0),), {"records": True}))]

    def m_convert(eng, st, a, info):
        conv, _ = stages(eng)
        r = [zi(models.ld(eng, st, a[1]))]
        out = []
        for s, b in models.fork(eng, st, conv.ok(r)):
            out.append((s, models.ok(conv(r)) if b else models.err(Opaque("C::Error"))))
        return out

    def m_cluster(eng, st, a, info):
        conv, clus = stages(eng)
        ls = leaves(models.ld(eng, st, a[1]), conv.sh)
        return [(s, models.ok(clus(ls)) if b else models.err(Opaque("Cl::Error"))) for s, b in models.fork(eng, st, clus.ok(ls))]

    # ---------------------------------------------------------------- tasks and the list they share
    def m_scope(eng, st, a, info):
        return eng.apply(st, a[0], [Opaque("scope")])

    def m_spawn(eng, st, a, info):
        return [(s, UNIT) for s, _ in eng.apply(st, a[1], [Opaque("scope")])]

    def m_mutex(eng, st, a, info):
        root = ("M", fresh("mutex", I).decl().name())
        v = models.ld(eng, st, a[0])
        if isinstance(v, models.LazySeq):
            sh = eng.shape(info.targs[1], info.fr.subst)
            v = SeqV(sh[1], [fresh("m", z3.ArraySort(I, s)) for s in sorts(sh[1])], 0, 0)
        st.store[root] = v
        return [(st, Opaque("Mutex", None, {"root": root}))]

    def root_of(v, what):
        if not isinstance(v, Opaque) or "root" not in v.info or v.ty != what:
            raise Unsupported("%s expected" % what)
        return v.info["root"]

    def m_lock(eng, st, a, info):
        return [(st, Opaque("MutexGuard", None, {"root": root_of(models.ld(eng, st, a[0]), "Mutex")}))]

    def m_derefm(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        if isinstance(v, Opaque) and v.ty == "MutexGuard":
            return [(st, Opaque("shared list", None, {"root": v.info["root"]}))]
        return NotImplemented

    base_derefm, base_push = models.MODELS["std::ops::DerefMut::deref_mut"], models.MODELS["std::vec::Vec::<T, A>::push"]

    def m_push(eng, st, a, info):
        v = a[0] if isinstance(a[0], Opaque) else models.ld(eng, st, a[0])
        if isinstance(v, Opaque) and v.ty == "shared list":
            return base_push(eng, st, [Ptr(v.info["root"])] + a[1:], info)
        return base_push(eng, st, a, info)

    def m_derefm2(eng, st, a, info):
        r = m_derefm(eng, st, a, info)
        return base_derefm(eng, st, a, info) if r is NotImplemented else r

    def m_unmutex(eng, st, a, info):
        v = st.store[root_of(models.ld(eng, st, a[0]), "Mutex")]
        st.trace = st.trace + (("tasks", v),)
        return [(st, models.perm_seq(eng, st, v, "finished"))]

    # ---------------------------------------------------------------- reading
    def tasks_inv(L):
        eng = L.eng
        rs = [r for r in L.st.store if r[0] == "M"]
        if len(rs) != 1:
            raise Unsupported("the list of events is not unique")
        v = L.st.store[rs[0]]
        n = zi(L.it().pos)
        if isinstance(v, models.LazySeq) or not is0(v.off):
            raise Unsupported("list of events")
        res = lambda k: sel(v, k)
        g = lambda k: z3.And(z3.Or(zi(res(k).d) == 0, zi(res(k).d) == 1), RDOK(k), (zi(res(k).d) == 0) == expected(eng, k)[0], z3.Implies(zi(res(k).d) == 0, same(eng, res(k).pay[0].f[0], k)))
        return [("one result per record so far", zi(v.n) == n),
                ("the k-th result is that of the k-th record", forall(n, g, lambda k: zi(res(k).d)))]

    def read_req(c):
        return [("number of records", z3.And(N >= 0, N < 2 ** 60)), ("which", K >= 0), ("no lock is held", forall_held(c.held0()))]

    def read_ens(c):
        r = c.ret
        eng = c.eng
        bad = z3.Exists([kk], z3.And(0 <= kk, kk < N, z3.Not(expected(eng, kk)[0]))) if (kk := fresh("k", I)) is not None else None
        out = [("either a list of events or an error", z3.Or(zi(r.d) == 0, zi(r.d) == 1))]
        if not (isinstance(r.d, int) and r.d == 0):
            out += [("an error only if a record is unusable", z3.Implies(zi(r.d) == 1, bad))]
        if isinstance(r.d, int) and r.d == 1:
            return out
        ev = r.pay[0].f[0]
        if not is0(ev.off):
            raise Unsupported("events with an offset")
        ID = lambda i: zi(sel(ev, i).f[EV_ID])
        okk = lambda g: z3.Implies(zi(r.d) == 0, g)
        at = AT
        if not c.caller:
            perms = [t for t in c.st.trace if t[0] == "perm"]
            if len(perms) != 1:
                raise Unsupported("the tasks' results are not taken exactly once")
            at = perms[0][2]
        out += [("one event per record", okk(zi(ev.n) == N)),
                ("events are numbered by their records", okk(forall(ev.n, lambda i: z3.And(0 <= ID(i), ID(i) < N, at(ID(i)) == i), ID))),
                ("every number occurs", okk(forall(N, lambda k: z3.And(0 <= at(k), at(k) < N, ID(at(k)) == k), lambda k: [at(k), RDOK(k)]))),
                ("each event is that of its record", okk(forall(ev.n, lambda i: same(eng, sel(ev, i), ID(i)), ID))),
                ("every record is usable", okk(forall(N, lambda k: expected(eng, k)[0], lambda k: at(k))), {"use": ["one event per record", "every number occurs", "each event is that of its record"]})]
        return out

    def forall_held(arr):
        x = fresh("x", I)
        return z3.ForAll([x], z3.Not(z3.Select(arr, x)), patterns=[z3.Select(arr, x)])

    def read_ret(c):
        eng = c.eng
        sh = stages(eng)[0].sh
        ev = fresh_of(("seq", sh), "events")
        o = []
        eng.tfacts(ev, {"k": "adt", "p": "std::vec::Vec", "a": [{"k": "adt", "p": "event::Event", "a": []}]}, {}, o)
        s1, s2 = c.st.copy(), c.st.copy()
        s1.fact(*o)
        s1.trace = s1.trace + (("read_events", ev),)
        s2.trace = s2.trace + (("failed", "reading"),)
        return [(s1, models.ok(ev)), (s2, models.err(Opaque("CresError")))]

    base = {"std::iter::Iterator::size_hint": m_hint, "std::iter::Iterator::enumerate": lambda e, s, a, i: r if (r := m_enumerate(e, s, a, i)) is not NotImplemented else models.MODELS["std::iter::Iterator::enumerate"](e, s, a, i),
            "traits::TryConvert::try_convert": m_convert, "traits::Clustering::cluster": m_cluster, "rayon::in_place_scope_fifo": m_scope,
            "rayon::ScopeFifo::<'scope>::spawn_fifo": m_spawn, "parking_lot::lock_api::Mutex::<R, T>::new": m_mutex, "parking_lot::lock_api::Mutex::<R, T>::lock": m_lock,
            "std::ops::DerefMut::deref_mut": m_derefm2, "std::vec::Vec::<T, A>::push": m_push, "parking_lot::lock_api::Mutex::<R, T>::into_inner": m_unmutex}
    LOOPS[(READ + "::{closure#0}", 0)] = LoopSpec(tasks_inv)
    read = Contract(READ, requires=read_req, ensures=read_ens, modifies={0: [(("f", fIO),)]}, returns=read_ret, props=("C11",))
    read.models = base
    read.tyover = {REC: ("z", I)}

    # ---------------------------------------------------------------- the run
    def have_weights(h, ev):
        return forall(ev.n, lambda j: wn(sel(h, lock_of(ev, j))) >= 1, lambda j: lock_of(ev, j))

    def arb_heap(eng, st, ev, wv):
        """weights change arbitrarily, but each event keeps some"""
        if not is0(ev.off) or not is0(wv.off):
            raise Unsupported("events with an offset")
        if multi:
            eng.oblige(st, have_weights(st.store[HEAP], ev), "events to be resampled or unweighted have weights", "precondition")
        st.store[HEAP] = eng.havoc(st.store[HEAP], None, None, st, "heap")
        st.writes = st.writes | {(HEAP, ())}
        w = st.store[HEAP]
        e = sel(w, z3.Int("x"))
        if isinstance(e.f[0], SeqV):
            i = fresh("i", I)
            n = z3.Select(w.lv[0], i)
            st.fact(z3.ForAll([i], z3.And(n >= 0, n < 2 ** 60), patterns=[n]))
            st.fact(have_weights(w, wv))

    def m_resample(eng, st, a, info):
        """any resampler: the same events in any order, with any weights"""
        ev = models.ld(eng, st, a[1])
        bad = st.copy()
        bad.trace = bad.trace + (("failed", "resampling"),)
        w = models.perm_seq(eng, st, ev, "resampled")
        arb_heap(eng, st, ev, w)
        return [(st, models.ok(w)), (bad, models.err(Opaque("S::Error")))]

    def m_unweight(eng, st, a, info):
        """any unweighter: some of the events in any order, with any weights"""
        ev = models.ld(eng, st, a[1])
        bad = st.copy()
        bad.trace = bad.trace + (("failed", "unweighting"),)
        if not is0(ev.off):
            raise Unsupported("events with an offset")
        sg, tau, n = freshfn("kept", I, I), freshfn("kpos", I, I), fresh("nkept", I)
        lv = [fresh("kept", x.sort()) for x in ev.lv]
        w = SeqV(ev.sh, lv, 0, n)
        st.fact(n >= 0, n <= zi(ev.n), forall(n, lambda j: z3.And(0 <= sg(j), sg(j) < zi(ev.n), tau(sg(j)) == j, *[z3.Select(x, j) == z3.Select(y, sg(j)) for x, y in zip(lv, ev.lv)]),
                                              lambda j: [sg(j)] + [z3.Select(x, j) for x in lv]))
        arb_heap(eng, st, ev, w)
        st.trace = st.trace + (("survivors", w),)
        return [(st, models.ok(w)), (bad, models.err(Opaque("U::Error")))]

    def m_update(eng, st, a, info):
        w = models.ld(eng, st, a[1])
        bad = st.copy()
        bad.trace = bad.trace + (("failed", "update"),)
        st.trace = st.trace + (("update", w, st.store[HEAP]),)
        n = fresh("nupdated", I)
        st.fact(n >= 0, n < 2 ** 64)
        return [(st, models.ok(n)), (bad, models.err(Opaque("R::Error")))]

    def m_anysort(eng, st, a, info):
        """sorting in any order is a permutation; which one does not matter"""
        v = models.ld(eng, st, a[0])
        w = models.perm_seq(eng, st, v, "sorted")
        eng.assign(st, a[0], w)
        if any(t[0] == "survivors" for t in st.trace):
            st.trace = st.trace + (("survivors", w),)
        return [(st, UNIT)]

    def m_nothing(eng, st, a, info):
        return [(st, UNIT)]

    def nout(e):
        return zi(e.f[EV_OUT].n)

    def start(h, e, w):
        """weights of event e before the final weights are known"""
        x = sel(h, zi(e.f[EV_LOCK].id))
        return z3.And(wn(w) == wn(x), z3.Implies(K < wn(w), wk(w, K) == z3.If(nout(e) == 0, wk(x, K), z3.RealVal(0))))

    def l0(L):
        w = L.v("weights")
        it = L.it()
        ev = it.meta["src"]
        if not is0(ev.off) or not is0(w.off):
            raise Unsupported("events with an offset")
        h = L.heap()
        ID = lambda i: zi(sel(ev, i).f[EV_ID])
        return [("as many weights as records", zi(w.n) == N),
                ("weights of the events so far", forall(it.pos, lambda k: start(h, sel(ev, k), sel(w, ID(k))), ID))]

    def l1(L):
        w, w0 = L.v("weights"), L.v0("weights")
        it = L.it()
        ev = it.meta["src"]
        h = L.heap()
        if not is0(ev.off) or not is0(w.off) or not is0(w0.off):
            raise Unsupported("events with an offset")
        ID = lambda i: zi(sel(ev, i).f[EV_ID])
        n = zi(it.n)
        # ids are distinct, so that a function that finds an event by its id exists
        a, b = fresh("a", I), fresh("b", I)
        distinct = FA([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), ID(a) != ID(b)), [ID(a), ID(b)])
        L.lemma(z3.Implies(distinct, forall(n, lambda j: WHERE(ID(j)) == j, ID)))
        done = lambda k: z3.And(0 <= WHERE(k), WHERE(k) < zi(it.pos), ID(WHERE(k)) == k)
        x = lambda k: sel(h, zi(sel(ev, WHERE(k)).f[EV_LOCK].id))
        same_ = lambda p, q: z3.And(wn(p) == wn(q), z3.Implies(K < wn(p), wk(p, K) == wk(q, K)))
        return [("events have different numbers", distinct),
                ("as many weights as records", zi(w.n) == N),
                ("events so far have their final weights", forall(N, lambda k: z3.If(done(k), same_(sel(w, k), x(k)), same_(sel(w, k), sel(w0, k))), lambda k: [WHERE(k), AT(k)]))]

    def run_req(c):
        eng = c.eng
        k = fresh("k", I)
        good, f = expected(eng, k)
        if not multi:
            return read_req(c)
        return read_req(c) + [("every event has a weight", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N, good), wn(sel(c.heap0(), zi(f.f[EV_LOCK].id))) >= 1), patterns=[zi(f.f[EV_LOCK].id)]))]

    def run_ens(c):
        """W: the weights written; h0: weights as read; events e as read, survivors f with their final weights in h1"""
        r = c.ret
        fails = [t for t in c.st.trace if t[0] == "failed"]
        ups = [t for t in c.st.trace if t[0] == "update"]
        k = fresh("k", I)
        eng = c.eng
        good = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), expected(eng, k)[0]), patterns=[AT(k)])
        out = []
        if fails:
            return [("a failure is reported", zi(r.d) == 1), ("nothing is written after a failure", z3.BoolVal(not ups))]
        if not ups:
            return [("an error is reported", zi(r.d) == 1)]
        if len(ups) != 1:
            return [("weights are written once", z3.BoolVal(False))]
        _, W, h1 = ups[0]
        h0 = c.heap0()
        evs = [t for t in c.st.trace if t[0] == "read_events"]
        fin = [t for t in c.st.trace if t[0] == "survivors"]
        if len(evs) != 1 or not fin or not is0(W.off):
            raise Unsupported("events are not read, resampled and unweighted exactly once")
        e, f = evs[0][1], fin[-1][1]
        fid = lambda j: zi(sel(f, j).f[EV_ID])
        w0 = lambda k: sel(h0, zi(sel(e, AT(k)).f[EV_LOCK].id))
        kept = lambda k: z3.And(0 <= WHERE(k), WHERE(k) < zi(f.n), fid(WHERE(k)) == k)
        fate = lambda g: forall(N, g, lambda k: [AT(k), WHERE(k)])
        eqw = lambda a, b: z3.And(wn(a) == wn(b), z3.Implies(K < wn(a), wk(a, K) == wk(b, K)))
        empty = lambda k: nout(sel(e, AT(k))) == 0
        sh = stages(eng)[0].sh
        KEPT = "survivors are events with particles that were read"
        return [("all records are usable", good),
                (KEPT, forall(f.n, lambda j: z3.And(0 <= fid(j), fid(j) < N, nout(sel(f, j)) > 0, *[x == y for x, y in zip(leaves(sel(f, j), sh), leaves(sel(e, AT(fid(j))), sh))]), fid)), ("success is reported", zi(r.d) == 0),
                ("one set of weights per record", zi(W.n) == N),
                ("each surviving event's final weights are at the position of its record", forall(f.n, lambda j: z3.And(0 <= fid(j), fid(j) < N, eqw(sel(W, fid(j)), sel(h1, zi(sel(f, j).f[EV_LOCK].id)))), fid)),
                ("records without particles keep their weights", fate(lambda k: z3.Implies(empty(k), eqw(sel(W, k), w0(k)))), {"use": [KEPT]}),
                ("discarded records have zero weights", fate(lambda k: z3.Implies(z3.And(z3.Not(empty(k)), z3.Not(kept(k))), z3.And(wn(sel(W, k)) == wn(w0(k)), z3.Implies(K < wn(sel(W, k)), wk(sel(W, k), K) == 0)))), {"use": [KEPT]})]

    run = Contract(RUN, requires=run_req, ensures=run_ens, modifies={0: [(("f", fIO),), (("f", fR),), (("f", fU),)]}, loops={0: LoopSpec(l0), 1: LoopSpec(l1)}, props=("C11",))
    run.models = {"traits::Resample::resample": m_resample, "traits::Unweight::unweight": m_unweight, "traits::UpdateWeights::update_all_weights": m_update,
                  "rayon::prelude::ParallelSliceMut::par_sort_unstable": m_anysort, "cres::log_multiplicities": m_nothing,
                  "rayon::slice::ParallelSliceMut::par_sort_unstable": m_anysort}
    return [read, run]


LOOPS = {}
