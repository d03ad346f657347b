"""resampler.rs: resampling a sample."""
from contracts.common import *
from contracts import cell as cellmod
from contracts.cell import NPOINTS, MAXDIST, heaplens, forall_held, global_order, uniform

PATH = "<resampler::Resampler<D, N, O, S> as traits::Resample>::resample"


def contracts(crate, multi):
    NW, K = z3.Int("NW"), z3.Int("which_weight")

    def req(c):
        ev = c.a[1]
        h = c.heap0()
        return [("locks are ordered by event", global_order(ev)(c.eng)), ("uniform number of weights", z3.And(NW >= 1 if multi else NW == 1, uniform(c.eng, ev, NW))),
                ("free locks hold their weights", heaplens(c.eng, h)), ("no lock is held", forall_held(c.held0())), ("which", z3.And(K >= 0, K < NW)),
                ("maximum cell size is not negative", maxsize(c) >= 0)]

    def maxsize(c):
        F = [f["n"] for f in crate.adts["resampler::Resampler"]["variants"][0]["f"]]
        m = c.old(0).f[F.index("max_cell_size")]
        return z3.If(zi(m.d) == 0, c.eng.FMAX(), m.pay[1].f[0])

    def totals(h, ev, key=""):
        return ghost("total" + key, lambda i: wk(sel(h, lock_of(ev, i)), K), lambda i: lock_of(ev, i))

    def ens(c):
        ev, r = c.a[1], c.ret
        if not isinstance(r, EnumV):
            raise Unsupported("result")
        e1 = r.pay[0].f[0]
        N = zi(ev.n)
        a0, d0 = totals(c.heap0(), ev)
        a1, d1 = totals(c.heap1(), ev)
        if not is0(e1.off) or not is0(ev.off):
            raise Unsupported("events with an offset")
        from contracts.lemmas import LEMMAS
        st = [t for t in c.st.trace if t[0] == "resampled"]
        if len(st) != 1:
            raise Unsupported("the seeds are not treated exactly once")
        _, b0, b1 = st[0]
        return [("resampling succeeds", zi(r.d) == 0),
                ("the events are returned as they were given", z3.And(zi(e1.n) == N, *[x == y for x, y in zip(e1.lv, ev.lv)])),
                ("each event keeps its number of weights", heaplens(c.eng, c.heap1())),
                ("the total of every weight is unchanged", SUM(a1, z3.IntVal(0), N) == SUM(a0, z3.IntVal(0), N),
                 {"lemmas": d0 + d1 + [LEMMAS["sum_cong"](a0, b0, 0, N), LEMMAS["sum_cong"](a1, b1, 0, N)]}),
                ("all locks are released", forall_held(c.held1()))]

    def seeds_foreach(eng, st, it, f, info):
        """rayon's for_each, with an invariant: any number of seeds, in any order.  Each call is one transaction on the
        weights (two-phase locking, see C02), so the calls can be taken one after the other."""
        c = eng.cur_ctx
        ev = c.a[1]
        N = zi(ev.n)
        h0 = st.store[HEAP]
        a0, d0 = totals(h0, ev)
        s = st.copy()
        s.fact(*d0)

        def inv(x, lemma):
            h = x.store[HEAP]
            a, d = totals(h, ev)
            lemma += d
            return [("each event keeps its number of weights", heaplens(eng, h)), ("no lock is held", forall_held(x.store[HELD].arr)),
                    ("the total of every weight is unchanged", SUM(a, z3.IntVal(0), N) == SUM(a0, z3.IntVal(0), N))], a
        from contracts.lemmas import LEMMAS
        ex = []
        gs, a = inv(s, ex)
        for lab, g in gs:
            eng.oblige(s, g, "before the first seed: " + lab, "invariant", extra=ex + [LEMMAS["sum_cong"](a, a0, 0, N)])
        # an arbitrary call
        x = s.copy()
        x.store[HEAP] = eng.havoc(x.store[HEAP], None, None, x, "heap")
        x.store[HELD] = SetV(fresh("held", x.store[HELD].arr.sort()), x.store[HELD].sh)
        x.writes = x.writes | {(HEAP, ()), (HELD, ())}
        ex = []
        gs, b = inv(x, ex)
        x.fact(*[g for _, g in gs], *ex)
        out = x.copy()
        out.trace = out.trace + (("resampled", a0, b),)
        i = fresh("seed", I)
        x.fact(0 <= i, i < zi(it.n))
        v = it.at(i)
        eng.cache["resampled"] = []
        for x2, _ in eng.apply(x, f, [v]):
            for r in x2.store:
                if r not in (HEAP, HELD) and r in x.store and x2.store[r] is not x.store[r] and not (isz(x2.store[r]) and x2.store[r].eq(x.store[r])):
                    raise Unsupported("treating a seed changes %s" % (r,))
            ex = []
            gs, a = inv(x2, ex)
            cong = [LEMMAS["sum_cong"](a, b, 0, N)]
            for p0, p1, _, _ in eng.cache["resampled"]:
                cong += [LEMMAS["sum_cong"](b, p0, 0, N), LEMMAS["sum_cong"](a, p1, 0, N)]
            for lab, g in gs:
                eng.oblige(x2, g, "after each seed: " + lab, "invariant", extra=ex + cong)
        return [(out, UNIT)]

    def seeds_model(eng, st, a, info):
        ev = models.ld(eng, st, a[1])
        n = fresh("nseeds", I)
        s = freshfn("seed_at", I, I)
        k = fresh("k", I)
        st.fact(n >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= s(k), s(k) < zi(ev.n))), patterns=[s(k)]))
        return [(st, It(n, lambda q: s(zi(q)), 0, (), {}))]

    def search_model(eng, st, a, info):
        st.fact(NPOINTS == zi(a[0]), MAXDIST == a[2])
        eng.oblige(st, a[2] >= 0, "the maximum distance is not negative", "precondition")
        return [(st, Opaque("search", z3.Const("search", OPQ)))]

    def nothing(eng, st, a, info):
        return [(st, UNIT)]

    con = Contract(PATH, requires=req, ensures=ens, props=("C01", "C03"))
    con.models = {"seeds::SelectSeeds::select_seeds": seeds_model,
                  "traits::SelectSeeds::select_seeds": seeds_model,
                  "neighbour_search::NeighbourSearchAlgo::new_with_dist": search_model,
                  "traits::NeighbourSearchAlgo::new_with_dist": search_model,
                  "traits::ObserveCell::observe_cell": nothing, "traits::ObserveCell::finish": nothing}
    con.foreach = {PATH: seeds_foreach}
    return [con]
