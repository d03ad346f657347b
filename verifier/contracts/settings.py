"""resampler.rs: the default resampler is the resampler with the settings it was given."""
from contracts.common import *
from values import *

RES = "<resampler::DefaultResampler<N> as traits::Resample>::resample"
STATE = z3.Function("collector_in", I, I)


def contracts(crate, multi):
    fields = lambda p: [f["n"] for f in crate.adts[p]["variants"][0]["f"]]
    D, B_, R_ = fields("resampler::DefaultResampler"), fields("resampler::DefaultResamplerBuilder"), fields("resampler::Resampler")
    OB, OD = fields("resampler::Observer"), fields("resampler::ObserverData")
    SETTINGS = ("ptweight", "strategy", "max_cell_size", "cell_collector")
    TY = {"std::rc::Rc": ("z", I), "cell_collector::CellCollector": ("z", I), "event::Event": ("z", I), "thread_local::ThreadLocal": ("z", I), "rand_xoshiro::Xoshiro256Plus": ("z", I)}
    cs = []
    P = ("C03", "C08")

    def same(a, b):
        return eqv(a, b)

    def same_opt(a, b, num):
        if a.pay.get(1) is None or b.pay.get(1) is None:
            return z3.And(zi(a.d) == zi(b.d), zi(a.d) == 0)
        return z3.And(zi(a.d) == zi(b.d), z3.Implies(zi(b.d) == 1, num(a.pay[1].f[0]) == num(b.pay[1].f[0])))

    # ------------------------------------------------------------ builder
    def setter(name):
        def ens(c):
            r = c.ret
            return [("%s is set" % name if f == name else "%s is kept" % f, same(r.f[B_.index(f)], c.a[1] if f == name else c.a[0].f[B_.index(f)])) for f in SETTINGS]
        return ens

    def keeps(src, dst):
        def ens(c):
            return [("%s is kept" % f, same(c.ret.f[dst.index(f)], c.a[0].f[src.index(f)])) for f in SETTINGS]
        return ens

    def add(path, **kw):
        con = Contract(path, props=P, **kw)
        con.tyover = dict(TY)
        cs.append(con)
        return con
    for f in SETTINGS:
        add("resampler::DefaultResamplerBuilder::<N>::" + f, ensures=setter(f))
    add("resampler::DefaultResamplerBuilder::<N>::neighbour_search", ensures=keeps(B_, B_))
    add("resampler::DefaultResamplerBuilder::<N>::build", ensures=keeps(B_, D))

    # the resampler with other seeds, distances, observers
    RB = fields("resampler::ResamplerBuilder")
    PARTS = ("seeds", "distance", "observer", "max_cell_size")

    def part(name):
        def ens(c):
            r = c.ret
            return [("%s is set" % f if f == name else "%s is kept" % f, same(r.f[RB.index(f)], c.a[1] if f == name else c.a[0].f[RB.index(f)])) for f in PARTS]
        return ens

    def parts_kept(dst):
        return lambda c: [("%s is kept" % f, same(c.ret.f[dst.index(f)], c.a[0].f[RB.index(f)])) for f in PARTS]
    for f in PARTS:
        add("resampler::ResamplerBuilder::<D, O, S, N>::" + f, ensures=part(f)).inline = True
    add("resampler::ResamplerBuilder::<D, O, S, N>::neighbour_search", ensures=parts_kept(RB)).inline = True
    add("resampler::ResamplerBuilder::<D, O, S, N>::build", ensures=parts_kept(R_)).inline = True

    # ------------------------------------------------------------ resampling
    def m_resample(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        if not (isinstance(v, Agg) and v.ty == "resampler::Resampler"):
            return NotImplemented
        good, bad = st.copy(), st.copy()
        out = fresh_of(eng.shape({"k": "adt", "p": "std::vec::Vec", "a": [{"k": "adt", "p": "event::Event", "a": []}]}), "resampled")
        bad.trace = bad.trace + (("resampled", v, a[1], None, None),)
        # the observer has a collector afterwards exactly if it had one before (ObserverData::combine)
        o = v.f[R_.index("observer")]
        d = o.f[OB.index("central")]
        cc = d.f[OD.index("cell_collector")]
        new = fresh("collector", I)
        cc1 = EnumV(cc.ty, cc.d, {k: (Agg(p.ty, [new]) if p.f else p) for k, p in cc.pay.items()})
        d1 = Agg(d.ty, [cc1 if f == "cell_collector" else x for f, x in zip(OD, d.f)])
        o1 = Agg(o.ty, [d1 if f == "central" else x for f, x in zip(OB, o.f)])
        eng.assign(good, a[0], Agg(v.ty, [o1 if f == "observer" else x for f, x in zip(R_, v.f)]))
        good.trace = good.trace + (("resampled", v, a[1], out, new),)
        return [(good, models.ok(out)), (bad, models.err(Opaque("ResamplingError")))]

    def ens(c):
        s, r = c.old(0), c.ret
        calls = [t for t in c.st.trace if t[0] == "resampled"]
        if len(calls) != 1:
            return [("the events are resampled once", z3.BoolVal(False))]
        _, v, ev, out, new = calls[0]
        g = lambda f: v.f[R_.index(f)]
        num = lambda x: num(x.f[0]) if isinstance(x, Agg) else zi(x)
        size0, size1 = s.f[D.index("max_cell_size")], g("max_cell_size")
        cc = s.f[D.index("cell_collector")]
        obs = g("observer").f[OB.index("central")].f[OD.index("cell_collector")]
        res = [("the events given are resampled", same(ev, c.a[1])), ("with the τ factor asked for", num(g("distance")) == num(s.f[D.index("ptweight")])),
               ("with the strategy asked for", same(g("seeds").f[0] if isinstance(g("seeds"), Agg) else g("seeds"), s.f[D.index("strategy")])),
               ("with the cell size asked for", same_opt(size1, size0, num)),
               ("cells are collected exactly if asked for", zi(obs.d) == zi(cc.d))]
        res += [("the %s stays set" % f, same(c.new(0).f[D.index(f)], s.f[D.index(f)])) for f in SETTINGS]
        put = [t for t in c.st.trace if t[0] == "collected"]
        if cc.pay.get(1) is not None:
            rc = cc.pay[1].f[0]
            if obs.pay.get(1) is not None:
                res.append(("starting from what has been collected", z3.Implies(zi(cc.d) == 1, num(obs.pay[1].f[0]) == STATE(zi(rc)))))
        if out is None:
            return res + [("an error is reported", zi(r.d) == 1)]
        res.append(("the result is returned", z3.And(zi(r.d) == 0, same(r.pay[0].f[0], out))))
        if put:
            res.append(("what has been collected is handed over", z3.And(zi(cc.d) == 1, len(put) == 1, zi(put[0][1]) == zi(rc), zi(put[0][2]) == new)))
        else:
            res.append(("what has been collected is handed over", zi(cc.d) == 0))
        return res

    def m_borrow(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        return [(st, STATE(zi(v)))] if isz(v) or isinstance(v, int) else NotImplemented

    def m_replace(eng, st, a, info):
        st = st.copy()
        st.trace = st.trace + (("collected", models.ld(eng, st, a[0]), a[1]),)
        return [(st, fresh("old", I))]

    def m_same(eng, st, a, info):
        return [(st, models.ld(eng, st, a[0]))]
    con = add(RES, ensures=ens, modifies={0: [()]})
    con.models = {"traits::Resample::resample": m_resample, "std::cell::RefCell::<T>::borrow": m_borrow, "std::cell::RefCell::<T>::replace": m_replace}
    return cs
