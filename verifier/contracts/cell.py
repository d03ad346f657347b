"""cell.rs: growing a cell and averaging its weights."""
from contracts.common import *

C = "cell::Cell::<'a>::"
EVENTS, MEMBERS, RADIUS, WSUM = 0, 1, 2, 3


def fields(crate):
    return [f["n"] for f in crate.adts["cell::Cell"]["variants"][0]["f"]]


def global_order(ev):
    """the global lock order is the order of the events: rank of the lock of event i is i"""
    return lambda eng: forall(ev.n, lambda i: eng.lockrank(lock_of(ev, i)) == i, lambda i: lock_of(ev, i))


def uniform(eng, ev, nw):
    """every event has nw weights, whoever changes them"""
    return forall(ev.n, lambda i: eng.nw(lock_of(ev, i)) == nw, lambda i: lock_of(ev, i))


def heaplens(eng, st_heap, held=None):
    """lock invariant: content of a free lock has its constant number of weights"""
    x = fresh("x", I)
    e = sel(st_heap, x)
    if not isinstance(e.f[0], SeqV):
        return z3.BoolVal(True)
    n = z3.Select(st_heap.lv[0], x)
    return z3.ForAll([x], z3.And(n == eng.nw(x), n >= 0), patterns=[n])


def forall_held(h):
    x = fresh("x", I)
    return z3.ForAll([x], z3.Not(z3.Select(h, x)), patterns=[z3.Select(h, x)])


def contracts(crate, multi):
    F = fields(crate)
    iE, iM, iR, iW = F.index("events"), F.index("members"), F.index("radius"), F.index("weight_sum")
    cs = []

    def mem(cell):
        return cell.f[iM]

    def members_ok(c, cell):
        ev, m = cell.f[iE], cell.f[iM]
        return [("members are events", forall(m.n, lambda k: z3.And(0 <= sel(m, k), sel(m, k) < zi(ev.n)), lambda k: sel(m, k))),
                ("members are distinct", forall2(m.n, lambda i, j: sel(m, i) != sel(m, j), lambda i, j: [sel(m, i), sel(m, j)]))]

    NW = z3.Int("NW")

    def world(c, ev):
        eng = c.eng
        return [("locks are ordered by event", global_order(ev)(eng)), ("uniform number of weights", z3.And(NW >= 1 if multi else NW == 1, uniform(eng, ev, NW))),
                ("free locks hold their weights", heaplens(eng, c.heap0())),
                ("no lock is held", forall_held(c.held0()))]

    # ---- write_lock_weights: inlined at its call site (it returns guards), verified through resample
    K = z3.Int("which_weight")      # an arbitrary weight

    def snapshot(st):
        a = [t for t in st.trace if t[0] == "acquire*"]
        if len(a) != 1:
            raise Unsupported("the members are not locked exactly once")
        return a[0]

    def terms(c, st, seqname="A"):
        """ghost: A[j] = weight K of the j-th locked member at the time of locking"""
        _, out, pos, n, heap = snapshot(st)
        key = ("terms", out.get_id(), heap.lv[-1].get_id())
        if key not in c.eng.cache:
            A = fresh("terms", z3.ArraySort(I, R))
            j = fresh("j", I)
            c.eng.cache[key] = (A, z3.ForAll([j], z3.Select(A, j) == wk(sel(heap, z3.Select(out, j)), K), patterns=[z3.Select(A, j)]), out, heap)
            c.eng.cache[(key, 2)] = z3.ForAll([j], z3.Select(A, j) == wk(sel(heap, z3.Select(out, j)), K), patterns=[z3.Select(out, j)])
        A, ax, _, _ = c.eng.cache[key]
        c.lemma(ax, c.eng.cache[(key, 2)])
        return A, out, n, heap

    def res_req(c):
        cell = c.old(0)
        m = mem(cell)
        return [("not empty", zi(m.n) >= 1), ("which", z3.And(K >= 0, K < NW))] + members_ok(c, cell) + world(c, cell.f[iE])

    def res_view(c):
        """what a caller uses (a consequence of the postconditions below for a caller that nobody interferes with)"""
        cell0, cell1 = c.old(0), c.new(0)
        ev, N = cell0.f[iE], zi(cell0.f[iE].n)
        h0, h1 = c.heap0(), c.heap1()
        a0, d0 = ghost("before", lambda i: wk(sel(h0, lock_of(ev, i)), K), lambda i: lock_of(ev, i))
        a1, d1 = ghost("after", lambda i: wk(sel(h1, lock_of(ev, i)), K), lambda i: lock_of(ev, i))
        c.eng.cache.setdefault("resampled", []).append((a0, a1, h0, h1))
        c.lemma(*d0, *d1)
        return [("the events and the reported values are untouched", z3.And(cell1.f[iR] == cell0.f[iR], cell1.f[iW] == cell0.f[iW])),
                ("as many members", zi(mem(cell1).n) == zi(mem(cell0).n)),
                ("members are distinct events", z3.And([g for _, g in members_ok(c, cell1)])),
                ("each event keeps its number of weights", heaplens(c.eng, h1)),
                ("the total over all events is unchanged", SUM(a1, z3.IntVal(0), N) == SUM(a0, z3.IntVal(0), N))]

    def res_ens(c):
        if c.caller:
            return res_view(c)
        cell0, cell1 = c.old(0), c.new(0)
        ev, m0, m1 = cell0.f[iE], mem(cell0), mem(cell1)
        A, out, n, hl = terms(c, c.st)
        h1 = c.heap1()
        n0 = zi(m0.n)
        if not is0(m1.off):
            raise Unsupported("members with offset")
        lid = lambda j: z3.Select(out, j)
        x = z3.Int("some_lock")
        mean = [sum_def(A, 0, q) for q in (0, 1, n0 - 1, n0)] + [LEMMAS["mean"](SUM(A, 0, n0), z3.ToReal(n0))]
        for t in [t for t in c.st.trace if t[0] == "sum"]:
            mean += [LEMMAS["sum_cong"](A, t[1], 0, n0)] + [sum_def(t[1], 0, q) for q in (0, 1, n0 - 1, n0)]
        # weight K of every event, at the time of locking and afterwards; of every member afterwards
        N = zi(ev.n)
        a0, d0 = ghost("before", lambda i: wk(sel(hl, lock_of(ev, i)), K))
        a1, d1 = ghost("after", lambda i: wk(sel(h1, lock_of(ev, i)), K))
        b1, db = ghost("members_after", lambda i: wk(sel(h1, lid(i)), K))
        T = ["as many members", "the locks taken are those of the members", "members are distinct events"]
        return [
            ("the events and the reported values are untouched", z3.And(zi(cell1.f[iE].n) == N, cell1.f[iR] == cell0.f[iR], cell1.f[iW] == cell0.f[iW])),
            ("as many members", z3.And(zi(m1.n) == n0, zi(n) == n0)),
            ("members are those of before", same_elements(c, m0, m1)),
            ("members are distinct events", z3.And([g for _, g in members_ok(c, cell1)])),
            ("the locks taken are those of the members", forall(n0, lambda j: lid(j) == lock_of(ev, sel(m1, j)), lambda j: [lid(j), sel(m1, j)])),
            ("each member gets the mean", forall(n0, lambda j: wk(sel(h1, lid(j)), K) * z3.ToReal(n0) == SUM(A, 0, n0), lambda j: lid(j)), {"lemmas": mean}),
            ("each member keeps its number of weights", forall(n0, lambda j: wn(sel(h1, lid(j))) == c.eng.nw(lid(j)), lambda j: lid(j))),
            ("no other weight changes while the cell is locked", frame_x(c, out, n0, hl, h1), {}),
            ("all locks are released", z3.Not(z3.Select(c.held1(), x))),
            ("each event keeps its number of weights", heaplens(c.eng, h1)),
            ("the mean is distributed exactly", SUM(b1, z3.IntVal(0), n0) == SUM(A, 0, n0), {"use": ["each member gets the mean"], "lemmas": db + [LEMMAS["sum_const"](b1, n0, SUM(A, 0, n0))]}),
            ("the total over all events is unchanged", SUM(a1, z3.IntVal(0), N) == SUM(a0, z3.IntVal(0), N),
             {"use": T + ["no other weight changes while the cell is locked", "the mean is distributed exactly"], "lemmas": d0 + d1 + db + [LEMMAS["total"](a0, a1, N, m1.lv[0], A, b1, n0)]}),
        ]

    def frame_x(c, out, n0, hl, h1):
        x = fresh("x", I)
        return z3.ForAll([x], z3.Or(eqv_leaves(sel(h1, x), sel(hl, x)), z3.Exists([J], z3.And(0 <= J, J < n0, z3.Select(out, J) == x))), patterns=[z3.Select(h1.lv[0], x)])

    J = z3.Int("j!some")

    def eqv_leaves(a, b):
        return z3.And([p == q for p, q in zip(encode(shape_of(a), a, []), encode(shape_of(b), b, []))])

    def same_elements(c, m0, m1):
        ps = [t for t in c.st.trace if t[0] == "perm"]
        if len(ps) != 1:
            raise Unsupported("members are not sorted exactly once")
        pi, inv = ps[0][1], ps[0][2]
        n = zi(m0.n)
        return z3.And(forall(n, lambda j: z3.And(0 <= pi(j), pi(j) < n, sel(m1, j) == sel(m0, pi(j)), inv(pi(j)) == j), lambda j: [pi(j), sel(m1, j)]),
                      forall(n, lambda j: z3.And(0 <= inv(j), inv(j) < n, pi(inv(j)) == j), lambda j: [inv(j), sel(m0, j)]))

    def fold_inv(c):
        it = c.it()
        A, out, n, hl = terms(c, c.st)
        av = c.v("avg_wts")
        pos = zi(it.pos)
        c.lemma(sum_def(A, 0, pos), sum_def(A, 0, pos + 1), sum_def(A, 0, z3.IntVal(1)), sum_def(A, 0, z3.IntVal(0)))
        return [("number of weights", wn(av) == NW), ("sum of the members so far", wk(av, K) == SUM(A, 0, pos + 1))]

    loops = {0: LoopSpec(fold_inv)} if multi else {}
    cs.append(Contract(C + "resample", requires=res_req, ensures=res_ens, modifies={0: [(("f", iM),)], "heap": 1}, interference=True,
                       loops=loops, props=("C01", "C02")))
    cs[-1].nloops = 3
    # ---- Cell::new
    def cn_req(c):
        ev, seed = c.a[0], zi(c.a[1])
        h = c.heap0()
        return [("seed is an event", z3.And(0 <= seed, seed < zi(ev.n))), ("neighbour search over these events", zi(ev.n) == NPOINTS),
                ("locks are ordered by event", global_order(ev)(c.eng)), ("uniform number of weights", z3.And(NW >= 1 if multi else NW == 1, uniform(c.eng, ev, NW))),
                ("free locks hold their weights", heaplens(c.eng, h)), ("no lock is held", forall_held(c.held0())),
                ("the seed has negative weight", wk(sel(h, lock_of(ev, seed)), 0) < 0)]

    def nn(c):
        t = [t for t in c.st.trace if t[0] == "nearest"]
        if len(t) != 1:
            raise Unsupported("neighbours are not searched exactly once")
        return t[0][1:]

    def grown(c):
        """ghost: idx[j], wt[j] of the j-th candidate member (0: the seed)"""
        seed, n, ni, nd, _ = nn(c)
        ev, h = c.call.a[0] if isinstance(c, LoopCtx) else c.a[0], c.heap()if isinstance(c, LoopCtx) else c.heap1()
        key = ("grown", n.get_id(), h.lv[-1].get_id())
        if key not in c.eng.cache:
            M, d1 = ghost("candidate", lambda j: z3.If(j == 0, zi(seed), ni(j - 1)), None, I)
            A, d2 = ghost("wt", lambda j: wk(sel(h, lock_of(ev, z3.Select(M, j))), 0), lambda j: z3.Select(M, j))
            c.eng.cache[key] = (M, A, d1 + d2, n)
        M, A, d, _ = c.eng.cache[key]
        c.lemma(*d)
        return M, A

    def grow_inv(c):
        it = c.it()
        M, A = grown(c)
        seed, n, ni, nd, _ = nn(c)
        pos = zi(it.pos)
        mm = c.v("members")
        c.lemma(*[sum_def(A, 0, q) for q in (z3.IntVal(0), z3.IntVal(1), pos, pos + 1, pos + 2)])
        j = fresh("j", I)
        return [("one member per neighbour and the seed", zi(mm.n) == pos + 1),
                ("members in order", forall(pos + 1, lambda k: sel(mm, k) == z3.Select(M, k), lambda k: sel(mm, k))),
                ("accumulated weight", c.v("weight_sum") == SUM(A, z3.IntVal(0), pos + 1)),
                ("negative so far", z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= pos + 1), SUM(A, z3.IntVal(0), j) < 0), patterns=[SUM(A, z3.IntVal(0), j)])),
                ("radius", c.v("radius") == z3.If(pos == 0, z3.RealVal(0), nd(pos - 1)))]

    def cn_view(c):
        cell, ev = c.ret, c.a[0]
        m = cell.f[iM]
        return [("the cell is over the events", z3.And(zi(cell.f[iE].n) == zi(ev.n), *same_seq(cell.f[iE], ev))),
                ("at least the seed", 1 <= zi(m.n)),
                ("radius within the maximum cell size", z3.And(cell.f[iR] <= MAXDIST, cell.f[iR] >= 0)),
                ("weights are only read", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)])),
                ("no lock stays held", forall_held(c.held1())),
                ("members are distinct events", z3.And([g for _, g in members_ok(c, cell)]))]

    def same_seq(a, b):
        if not is0(a.off) or not is0(b.off):
            raise Unsupported("events with an offset")
        return [x == y for x, y in zip(a.lv, b.lv)]

    def cn_ens(c):
        if c.caller:
            return cn_view(c)
        cell, seed = c.ret, zi(c.a[1])
        m, ev = cell.f[iM], c.a[0]
        sd, n, ni, nd, md = nn(c)
        M, A = grown(c)
        cnt = zi(m.n)
        c.lemma(*[sum_def(A, 0, q) for q in (z3.IntVal(0), z3.IntVal(1), cnt, cnt - 1)])
        j = fresh("j", I)
        return [("the search is for the seed", zi(sd) == seed),
                ("the cell is over the events", z3.And(zi(cell.f[iE].n) == zi(ev.n), *same_seq(cell.f[iE], ev))),
                ("at least the seed, at most all neighbours", z3.And(1 <= cnt, cnt <= zi(n) + 1)),
                ("the seed followed by its nearest neighbours", forall(cnt, lambda k: sel(m, k) == z3.Select(M, k), lambda k: sel(m, k))),
                ("reported weight is the sum", cell.f[iW] == SUM(A, z3.IntVal(0), cnt)),
                ("grows no further than necessary", z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < cnt), SUM(A, z3.IntVal(0), j) < 0), patterns=[SUM(A, z3.IntVal(0), j)])),
                ("grows until balanced or exhausted", z3.Or(SUM(A, z3.IntVal(0), cnt) >= 0, cnt == zi(n) + 1)),
                ("radius is the distance of the last member", cell.f[iR] == z3.If(cnt == 1, z3.RealVal(0), nd(cnt - 2))),
                ("radius within the maximum cell size", z3.And(cell.f[iR] <= md, cell.f[iR] >= 0)),
                ("weights are only read", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)])),
                ("no lock stays held", forall_held(c.held1())),
                ("members are distinct events", z3.And([g for _, g in members_ok(c, cell)]))]

    con = Contract(C + "new", requires=cn_req, ensures=cn_ens, loops={0: LoopSpec(grow_inv)}, props=("C03",))
    cs.append(con)
    # ---- accessors
    def plain(label, f):
        return lambda c: [(label, f(c)), ("weights are only read", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)]))]

    def cellreq(c):
        cell = c.a[0]
        ev = cell.f[iE]
        return members_ok(c, cell) + [("uniform number of weights", z3.And(NW >= 1 if multi else NW == 1, uniform(c.eng, ev, NW))), ("free locks hold their weights", heaplens(c.eng, c.heap0())), ("no lock is held", forall_held(c.held0()))]

    cs.append(Contract(C + "nmembers", ensures=plain("the number of members", lambda c: zi(c.ret) == zi(mem(c.a[0]).n)), props=("C03", "C16")))
    cs.append(Contract(C + "radius", ensures=plain("the radius", lambda c: c.ret == c.a[0].f[iR]), props=("C03", "C16")))
    cs.append(Contract(C + "weight_sum", ensures=plain("the sum of weights", lambda c: c.ret == c.a[0].f[iW]), props=("C03", "C16")))

    def neg_ens(c):
        cell = c.a[0]
        ev, m = cell.f[iE], mem(cell)
        h = c.heap0()
        A, d = ghost("negative", lambda j: wk(sel(h, lock_of(ev, sel(m, j))), 0) < 0, None, z3.BoolSort())
        c.lemma(*d)
        cong = []
        for t in [t for t in c.st.trace if t[0] == "count"]:
            cong.append(LEMMAS["cnt_cong"](A, t[1], 0, zi(m.n)))
        return [("the number of members of negative weight", zi(c.ret) == CNT(A, z3.IntVal(0), zi(m.n)), {"lemmas": cong}),
                ("weights are only read", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)]))]
    con = Contract(C + "nneg_weights", requires=cellreq, ensures=neg_ens, props=("C03",))
    con.inline = True
    cs.append(con)

    def iter_ens(c):
        cell, it = c.a[0], c.ret
        ev, m = cell.f[iE], mem(cell)
        if not isinstance(it, It) or it.n is None:
            raise Unsupported("result is no iterator over a list")
        k = fresh("k", I)
        from models import stages_at
        st2 = c.st.copy()
        st2.fact(0 <= k, k < zi(m.n))
        outs = stages_at(c.eng, st2, it, k)
        if len(outs) != 1 or outs[0][1] is not True:
            raise Unsupported("members are skipped or treated differently")
        g = eqv(outs[0][2], sel(ev, sel(m, k)))
        return [("one element per member", z3.And(zi(it.n) == zi(m.n), zi(it.pos) == 0)),
                ("each element is the member's event", z3.Implies(z3.And([z3.And(0 <= k, k < zi(m.n))] + outs[0][0].facts()[len(c.st.pc):]), g))]
    con = Contract(C + "iter", requires=cellreq, ensures=iter_ens, props=("C03", "C16"))
    con.inline = True
    cs.append(con)
    return cs


NPOINTS = z3.Int("number_of_points")
MAXDIST = z3.Real("maximum_distance")


def nearest_model(eng, st, a, info):
    """trait contract of NeighbourSearch::nearest (proven for both implementations under C04)"""
    p = models.ld(eng, st, a[1])
    eng.oblige(st, z3.And(0 <= zi(p), zi(p) < NPOINTS), "the query is a point", "precondition")
    n = fresh("nn", I)
    ni, nd = freshfn("nn_idx", I, I), freshfn("nn_dist", I, R)
    k, j = fresh("k", I), fresh("j", I)
    st.fact(n >= 0, MAXDIST >= 0)
    rng = z3.And(0 <= k, k < n)
    f1 = z3.And(0 <= ni(k), ni(k) < NPOINTS, ni(k) != zi(p), nd(k) >= 0, nd(k) <= MAXDIST)
    st.fact(z3.ForAll([k], z3.Implies(rng, f1), patterns=[ni(k)]), z3.ForAll([k], z3.Implies(rng, f1), patterns=[nd(k)]))
    st.fact(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), ni(k) != ni(j)), patterns=[z3.MultiPattern(ni(k), ni(j))]))
    st.fact(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), nd(k) <= nd(j)), patterns=[z3.MultiPattern(nd(k), nd(j))]))
    st.trace = st.trace + (("nearest", p, n, ni, nd, MAXDIST),)
    return [(st, It(n, lambda q: Agg("tuple", [ni(zi(q)), nd(zi(q))]), 0, (), {}))]


MODELS = {"traits::NeighbourSearch::nearest": nearest_model, "neighbour_search::NeighbourSearch::nearest": nearest_model}


from contracts.lemmas import LEMMAS  # noqa: E402
