"""unweight.rs: discarding events of small weight."""
from contracts.common import *
from contracts.lemmas import LEMMAS
from contracts.cell import heaplens, forall_held, uniform

PATH = "<unweight::Unweighter<R> as traits::Unweight>::unweight"
NOPATH = "<unweight::NoUnweighter as traits::Unweight>::unweight"


def contracts(crate, multi):
    NW, K = z3.Int("NW"), z3.Int("which_weight")
    F = [f["n"] for f in crate.adts["unweight::Unweighter"]["variants"][0]["f"]]

    def req(c):
        ev, h = c.a[1], c.heap0()
        i, j = fresh("i", I), fresh("j", I)
        N = zi(ev.n)
        return [("the threshold is not negative", c.old(0).f[F.index("min_wt")] >= 0),
                ("events have their own weights", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), lock_of(ev, i) != lock_of(ev, j)), [lock_of(ev, i), lock_of(ev, j)])),
                ("uniform number of weights", z3.And(NW >= 1 if multi else NW == 1, uniform(c.eng, ev, NW))),
                ("free locks hold their weights", heaplens(c.eng, h)), ("no lock is held", forall_held(c.held0())),
                ("which", z3.And(K >= 0, K < NW))]

    def result(c):
        r = c.ret
        if not isinstance(r, EnumV):
            raise Unsupported("result")
        return r, r.pay[0].f[0]

    def frame(c, ev, n):
        """weights of events not given are never touched"""
        h0, h1, x = c.heap0(), c.heap1(), fresh("x", I)
        i = fresh("i", I)
        return FA([x], z3.Or(z3.And([z3.Select(a, x) == z3.Select(b, x) for a, b in zip(h1.lv, h0.lv)]),
                             z3.Exists([i], z3.And(0 <= i, i < zi(n), lock_of(ev, i) == x))), [z3.Select(h1.lv[0], x)])

    def ens(c):
        ev = c.a[1]
        m = c.old(0).f[F.index("min_wt")]
        r, e1 = result(c)
        N, n1 = zi(ev.n), zi(e1.n)
        h0, h1 = c.heap0(), c.heap1()
        sels = [t for t in c.st.trace if t[0] == "sel"]
        out = [("unweighting succeeds", zi(r.d) == 0), ("no lock stays held", forall_held(c.held1()))]
        if not sels:
            return out + [("the events are returned as they were given", z3.And(n1 == N, *[x == y for x, y in zip(e1.lv, ev.lv)])),
                          ("weights are untouched", z3.And([a == b for a, b in zip(h0.lv, h1.lv)])),
                          ("only a vanishing threshold or an empty sample is left alone", z3.Or(m == 0, N == 0))]
        if len(sels) != 1 or not is0(e1.off) or not is0(ev.off):
            raise Unsupported("events are not selected exactly once")
        _, sg, tau, n = sels[0]
        w0 = lambda k, q: wk(sel(h0, lock_of(ev, k)), q)
        w1 = lambda i, q: wk(sel(h1, lock_of(e1, i)), q)
        aw = lambda k: models.ABS(w0(k, 0))
        A0, d0 = ghost("before", lambda k: w0(k, 0))
        # raised weights of the kept events
        raised = lambda i, q: z3.If(aw(sg(i)) < m, w0(sg(i), q) * (m / aw(sg(i))), w0(sg(i), q))
        B1, d1 = ghost("raised", lambda i: raised(i, 0))
        C1, d2 = ghost("after", lambda i: w1(i, 0))
        S0, S1 = SUM(A0, z3.IntVal(0), N), SUM(B1, z3.IntVal(0), n1)
        rescaled = len([t for t in c.st.trace if t[0] == "scatter" and t[1] == HEAP]) > 1
        s = S0 / S1 if rescaled else z3.RealVal(1)
        FAC = "the factor is the ratio of the sums unless the new sum vanishes"
        sums = [t for t in c.st.trace if t[0] == "sum"]
        cong = []
        for t in sums:
            cong += [LEMMAS["sum_cong"](A0, t[1], 0, N), LEMMAS["sum_cong"](B1, t[1], 0, n1)]
        i, j = fresh("i", I), fresh("j", I)
        rng = z3.And(0 <= i, i < n1)
        c.lemma(models.abs_def())
        SEL = "kept events are events of the sample, in order and unchanged"
        USE = ["the sum of weights before is taken over all events", "the sum of weights after raising is taken over all kept events"]

        def weights(label, cond, val):
            g = lambda q: forall(n1, lambda i: z3.Implies(cond(i), w1(i, q) == (val(i, q) * s if rescaled else val(i, q))), lambda i: sg(i))
            return [(label, g(K), {"use": USE + [FAC]}), (label + " (central)", g(z3.IntVal(0)), {"use": USE + [FAC]})]
        return out + [
            (SEL, z3.And(n1 == n, forall(n1, lambda i: z3.And(0 <= sg(i), sg(i) < N, *[z3.Select(a, i) == z3.Select(b, sg(i)) for a, b in zip(e1.lv, ev.lv)]), lambda i: sg(i)),
                         FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n1), sg(i) < sg(j)), [sg(i), sg(j)]))),
            ("every event at or above the threshold is kept", forall(N, lambda k: z3.Implies(aw(k) >= m, z3.And(0 <= tau(k), tau(k) < n1, sg(tau(k)) == k)), lambda k: tau(k))),
            ("no event of vanishing weight is kept", forall(n1, lambda i: w0(sg(i), 0) != 0, lambda i: sg(i))),
            ("the sum of weights before is taken over all events", sums and SUM(sums[0][1], zi(sums[0][2]), zi(sums[0][3])) == S0, {"lemmas": d0 + cong}) if sums else ("the sum of weights is taken", z3.BoolVal(False)),
            ("the sum of weights after raising is taken over all kept events", SUM(sums[1][1], zi(sums[1][2]), zi(sums[1][3])) == S1, {"lemmas": d1 + cong}) if len(sums) > 1 else ("the sum of weights is taken again", z3.BoolVal(False)),
            (FAC, S1 != 0 if rescaled else S1 == 0, {"use": USE}),
            *weights("weights of small events are raised to the threshold and scaled by the factor", lambda i: aw(sg(i)) < m, lambda i, q: w0(sg(i), q) * (m / aw(sg(i)))),
            *weights("weights of other events are scaled by the factor", lambda i: aw(sg(i)) >= m, lambda i, q: w0(sg(i), q)),
            ("number of weights kept", forall(n1, lambda i: wn(sel(h1, lock_of(e1, i))) == wn(sel(h0, lock_of(ev, sg(i)))), lambda i: sg(i))),
            ("the sum of weights is preserved", z3.Implies(S1 != 0, SUM(C1, z3.IntVal(0), n1) == S0),
             {"use": ["weights of small events are raised to the threshold and scaled by the factor (central)", "weights of other events are scaled by the factor (central)", SEL, FAC], "only": True, "lemmas": d1 + d2 + [LEMMAS["sum_scale"](C1, B1, s, n1)]}),
            ("weights of other events are untouched", frame(c, ev, N)),
        ]

    con = Contract(PATH, requires=req, ensures=ens, modifies={0: [(("f", F.index("rng")),)]}, props=("C09",))

    def no_ens(c):
        ev = c.a[1]
        r, e1 = result(c)
        return [("unweighting succeeds", zi(r.d) == 0),
                ("the events are returned as they were given", z3.And(zi(e1.n) == zi(ev.n), *[x == y for x, y in zip(e1.lv, ev.lv)])),
                ("weights are untouched", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)]))]
    return [con, Contract(NOPATH, requires=lambda c: [("no lock is held", forall_held(c.held0()))], ensures=no_ens, props=("C09",))]
