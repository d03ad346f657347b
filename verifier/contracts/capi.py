"""c_api: the C interface stays in bounds and shows events faithfully."""
from contracts.common import *
from contracts.building import pidval

ERR = "c_api::error::"
LASTERR = ("LASTERR",)
BUF = ("B", "buf")
OPT, RES = "std::option::Option", "std::result::Result"
MSGA = z3.Function("error_message", I, z3.ArraySort(I, I))      # the text of an error
MSGN = z3.Function("error_message_length", I, I)
ANYERR = ("z", I)


def message(e):
    return SeqV(("z", I), [MSGA(zi(e))], 0, MSGN(zi(e)))


BEFORE = z3.Function("particles_before_set", I, I)      # number of particles in the sets before the given one
SETOF = z3.Function("set_of_particle", I, I)             # the set with BEFORE(s) <= i < BEFORE(s + 1)


def telescope(S):
    """sum of integers t(k) = S(k+1) - S(k)"""
    def model(eng, st, a, info):
        it = models.to_it(eng, st, a[0])
        g = models.gen(eng, st, it)
        if models.has_filter(it) or not (isz(g.val) and g.val.sort() == I):
            return NotImplemented
        s = st.copy()
        s.fact(g.rng, *g.facts)
        eng.oblige(s, g.val == S(g.k + 1) - S(g.k), "each term of the sum is the expected one in " + str(eng.curkey), "assert")
        return [(st, S(zi(it.n)) - S(zi(it.pos)))]
    return model


# ---------------------------------------------------------------- models
def _asptr(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if isinstance(v, Agg):
        v = eng.agg_seq(st, v)
    if not isinstance(v, SeqV):
        return NotImplemented
    if not is0(v.off):
        facts = []
        v = normalise(v, facts)
        st.fact(*facts)
    return [(st, Agg("rawptr", [v, 0]))]


def alloc(eng, st, p):
    return eng.load(st, p.f[0]) if p.ty == "rawmut" else p.f[0]


def raw(v):
    return isinstance(v, Agg) and v.ty in ("rawptr", "rawmut")


def _ptradd(eng, st, a, info):
    p, n = a
    if not raw(p):
        return NotImplemented
    g = zi(p.f[1]) + zi(n) <= zi(alloc(eng, st, p).n)
    eng.oblige(st, g, "raw pointer stays within its allocation in " + str(eng.curkey), "memory")
    st.fact(g)
    return [(st, Agg(p.ty, [p.f[0], models.add(p.f[1], n)]))]


def _copy(eng, st, a, info):
    src, dst, n = a
    if not raw(src) or not raw(dst) or dst.ty != "rawmut" or src.ty == "rawmut" and src.f[0].root == dst.f[0].root:
        return NotImplemented
    s, d = alloc(eng, st, src), alloc(eng, st, dst)
    for what, p, v in (("read from", src, s), ("written to", dst, d)):
        g = zi(p.f[1]) + zi(n) <= zi(v.n)
        eng.oblige(st, g, "only allocated memory is %s in %s" % (what, eng.curkey), "memory")
        st.fact(g)
    eng.assign(st, Ptr(dst.f[0].root, list(dst.f[0].path) + [("s", dst.f[1], n)]), SeqV(s.sh, s.lv, add(s.off, src.f[1]), n))
    return [(st, UNIT)]


def _isnull(eng, st, a, info):
    return [(st, fresh("is_null", B))]


def _with(eng, st, a, info):
    return eng.apply(st, a[1], [Agg("refcell", [Ptr(LASTERR)])])


def _borrow(eng, st, a, info):
    c = models.ld(eng, st, a[0])
    if not (isinstance(c, Agg) and c.ty == "refcell"):
        return NotImplemented
    return [(st, eng.load(st, c.f[0]))]


def _borrow_mut(eng, st, a, info):
    c = models.ld(eng, st, a[0])
    if not (isinstance(c, Agg) and c.ty == "refcell"):
        return NotImplemented
    return [(st, c.f[0])]


def _tostring(eng, st, a, info):
    ts = info.targs
    if not (ts and ts[0]["k"] == "adt" and ts[0]["p"] == "anyhow::Error"):
        return NotImplemented
    e = models.ld(eng, st, a[0])
    st.fact(MSGN(zi(e)) >= 0)
    return [(st, message(e))]


def _catch(eng, st, a, info):
    """a panic inside ends in Err; the state is that of the point of the panic"""
    stack = eng.cache.setdefault("catch", [])
    caught = []
    stack.append(caught)
    try:
        outs = eng.apply(st, a[0], [])
    finally:
        stack.pop()
    res = [(s, EnumV(RES, 0, {0: Agg(RES, [v])})) for s, v in outs]
    for s in caught:
        s = s.copy()
        s.loops = st.loops
        res.append((s, EnumV(RES, 1, {1: Agg(RES, [Opaque("panic payload")])})))
    return res


def may_panic(eng, st):
    """anything may have happened to the last error before a panic"""
    stack = eng.cache.setdefault("catch", [])
    if not stack:
        eng.oblige(st, z3.BoolVal(False), "a panic is caught before it reaches the caller in " + str(eng.curkey), "panic")
        return
    stack[-1].append(st.copy())


def _newerr(eng, st, a, info):
    return [(st, fresh("error", I))]


def _opaque(ty):
    return lambda eng, st, a, info: [(st, Opaque(ty))]


def _eprint(eng, st, a, info):
    may_panic(eng, st)
    return [(st, UNIT)]


def _run_internal(eng, st, a, info):
    """the run itself: any result, any error, or a panic"""
    eng.assign(st, Ptr(LASTERR), fresh_of(("enum", OPT, {0: ("agg", OPT, []), 1: ("agg", OPT, [ANYERR])}), "lasterr"))
    may_panic(eng, st)
    d, e = fresh("outcome", B), fresh("error", I)
    res = []
    for c, v in ((d, EnumV(RES, 0, {0: Agg(RES, [UNIT])})), (z3.Not(d), EnumV(RES, 1, {1: Agg(RES, [e])}))):
        s = st.copy()
        s.branch(c)
        s.trace = s.trace + (("outcome", v.d),)
        res.append((s, v))
    return res


MODELS = {
    "particle_id::ParticleID::new": lambda eng, st, a, info: [(st, Agg("particle_id::ParticleID", [a[0]]))],
    "particle_id::ParticleID::id": lambda eng, st, a, info: [(st, zi(pidval(models.ld(eng, st, a[0]))))],
    "std::vec::Vec::<T, A>::as_ptr": _asptr,
    "core::slice::<impl [T]>::as_ptr": _asptr,
    "std::ptr::const_ptr::<impl *const T>::add": _ptradd,
    "std::ptr::mut_ptr::<impl *mut T>::add": _ptradd,
    "std::ptr::copy_nonoverlapping": _copy,
    "std::ptr::mut_ptr::<impl *mut T>::is_null": _isnull,
    "std::panic::catch_unwind": _catch,
    "const c_api::error::LAST_ERROR": lambda eng, st: Opaque("LocalKey"),
}
LOCAL = {
    "std::thread::LocalKey::<T>::with": _with,
    "std::cell::RefCell::<T>::borrow": _borrow,
    "std::cell::RefCell::<T>::borrow_mut": _borrow_mut,
    "<T as std::string::ToString>::to_string": _tostring,
    "std::string::ToString::to_string": _tostring,
    "anyhow::error::<impl anyhow::Error>::msg": _newerr,
    "std::fmt::format": _opaque("String"),
    "std::fmt::Arguments::<'a>::new": _opaque("Arguments"),
    "core::fmt::rt::Argument::<'_>::new_display": _opaque("Argument"),
    "core::fmt::rt::Argument::<'_>::new_debug": _opaque("Argument"),
    "std::io::_eprint": _eprint,
    "c_api::cres::cres_run_internal": _run_internal,
}


def contracts(crate, multi):
    if ERR + "cres_last_err_internal" not in crate.bypath:
        return []       # the C interface is not part of this configuration
    cs = []

    def lasterr(eng, st):
        sh = ("enum", OPT, {0: ("agg", OPT, []), 1: ("agg", OPT, [ANYERR])})
        v = fresh_of(sh, "lasterr")
        st.fact(v.d >= 0, v.d <= 1)
        st.store[LASTERR] = v
        e = v.pay[1].f[0]
        # what the interface can express
        st.fact(MSGN(e) >= 0, MSGN(e) < 2 ** 31 - 1)

    def add(path, **kw):
        con = Contract(path, props=("C17",), **kw)
        con.models = dict(LOCAL)
        con.tyover = {"anyhow::Error": ANYERR}
        cs.append(con)
        return con

    def geterr_req(c):
        n = zi(c.a[1])
        b = c.eng.load(c.st, c.a[0].f[0])
        return [("the buffer has the given length", z3.And(n >= 0, zi(b.n) >= n, is0(c.a[0].f[1]) is True))]

    def geterr_ens(c):
        p, n = c.a[0], zi(c.a[1])
        b0, b1 = c.eng.load(c.pre_st, p.f[0]), c.eng.load(c.st, p.f[0])
        le = c.pre_st.store[LASTERR]
        some, e = zi(le.d) == 1, le.pay[1].f[0]
        m = message(e)
        L = zi(m.n)
        k = fresh("k", I)
        new, old = sel(b1, k), sel(b0, k)
        w = z3.If(L < n - 1, L, n - 1)      # bytes of the message that fit
        le1 = c.st.store[LASTERR]
        return [("the buffer keeps its length", zi(b1.n) == zi(b0.n)),
                ("nothing is written beyond the given length", FA([k], z3.Implies(z3.And(k >= n, k < zi(b0.n)), new == old), [new])),
                ("a prefix of the message", z3.Implies(z3.And(some, n > 0), FA([k], z3.Implies(z3.And(0 <= k, k < w), new == sel(m, k)), [new]))),
                ("followed by a NUL byte", z3.Implies(z3.And(some, n > 0), sel(b1, w) == 0)),
                ("zero exactly if the whole message fits, otherwise the size needed", z3.Implies(some, zi(c.ret) == z3.If(n > L, 0, L + 1))),
                ("zero and nothing written without an error", z3.Implies(z3.Not(some), z3.And(zi(c.ret) == 0, FA([k], z3.Implies(z3.And(0 <= k, k < zi(b0.n)), new == old), [new])))),
                ("the last error is kept", z3.And(zi(le1.d) == zi(le.d), z3.Implies(some, le1.pay[1].f[0] == e)))]
    for f in ("cres_last_err_internal", "cres_get_last_err"):
        add(ERR + f, requires=geterr_req, ensures=geterr_ens, modifies={BUF: [()]}, pre=lasterr)

    def keep_ens(c):
        a, b = c.pre_st.store[LASTERR], c.st.store[LASTERR]
        return [("the last error is kept", z3.And(zi(a.d) == zi(b.d), z3.Implies(zi(a.d) == 1, a.pay[1].f[0] == b.pay[1].f[0])))]
    add(ERR + "cres_print_last_err", ensures=keep_ens, pre=lasterr)

    def run_ens(c):
        o = [t[1] for t in c.st.trace if t[0] == "outcome"]
        good = o == [0]
        return [("zero exactly after success", (zi(c.ret) == 0) if good else zi(c.ret) != 0),
                ("an error or panic is remembered", z3.BoolVal(True) if good else zi(c.st.store[LASTERR].d) == 1)]
    add("c_api::cres::cres_run", ensures=run_ens, pre=lasterr)

    # ---- views of events
    EF = [f["n"] for f in crate.adts["event::Event"]["variants"][0]["f"]]
    eI, eW, eO = EF.index("id"), EF.index("weights"), EF.index("outgoing_by_pid")
    VF = [f["n"] for f in crate.adts["c_api::event::EventView"]["variants"][0]["f"]]
    vI, vW, vT, vNW, vNT = (VF.index(x) for x in ("id", "weights", "type_sets", "n_weights", "n_type_sets"))
    TF = [f["n"] for f in crate.adts["c_api::event::TypeSetView"]["variants"][0]["f"]]
    tI, tM, tN = (TF.index(x) for x in ("pid", "momenta", "n_momenta"))
    SF = [f["n"] for f in crate.adts["c_api::event::TypeSet"]["variants"][0]["f"]]
    sI, sM = SF.index("pid"), SF.index("momenta")
    iP = [f["n"] for f in crate.adts["four_vector::FourVector"]["variants"][0]["f"]].index("p") if "four_vector::FourVector" in crate.adts else 0
    from contracts.fourvec import fields
    _, iP = fields(crate)
    D = "c_api::distance::"

    def weights_of(c, st, ev):
        return sel(st.store[HEAP], ev.f[eW].id)

    def comps(p):
        """components of a four-momentum of an event"""
        return p.f[iP].f

    def shown_weights(w, v, n):
        """the first n values of v are all the weights"""
        k = fresh("k", I)
        x = sel(v, k)
        return [zi(n) == wn(w), zi(v.n) >= zi(n), FA([k], z3.Implies(z3.And(0 <= k, k < zi(n)), x == wk(w, k)), [x])]

    def shown_group(grp, v, n):
        j = fresh("j", I)
        x, y = sel(v, j), sel(grp, j)
        return [zi(n) == zi(grp.n), zi(v.n) >= zi(n), FA([j], z3.Implies(z3.And(0 <= j, j < zi(n)), z3.And([a == b for a, b in zip(x.f, comps(y))])), [x.f[0]])]

    con = add(D + "extract_weights", ensures=lambda c: [("all weights in their order", z3.And(shown_weights(weights_of(c, c.st, c.a[0]), c.ret, c.ret.n)))])

    def ts_ens(c):
        o, r = c.a[0].f[eO], c.ret
        q = fresh("q", I)
        s, g = sel(r, q), sel(o, q)
        rng = z3.And(0 <= q, q < zi(o.n))
        pat = [zi(s.f[sI])]
        return [("one set for each kind of particle", zi(r.n) == zi(o.n)),
                ("the particle ids", FA([q], z3.Implies(rng, zi(s.f[sI]) == pidval(g.f[0])), pat)),
                ("and all momenta", FAany([q], z3.Implies(rng, z3.And(shown_group(g.f[1], s.f[sM], s.f[sM].n))), pat + [zi(s.f[sM].n)]))]
    add(D + "extract_typesets", ensures=ts_ens)

    def view_ens(c):
        s, v = c.a[0], c.ret
        m, p = s.f[sM], v.f[tM]
        return [("the particle id", zi(v.f[tI]) == zi(s.f[sI])), ("the number of momenta", zi(v.f[tN]) == zi(m.n)),
                ("the momenta", z3.And([zi(p.f[1]) == 0, zi(p.f[0].n) == zi(m.n)] + [x == y for x, y in zip(p.f[0].lv, m.lv)]))]
    con = add("c_api::event::TypeSet::view", ensures=view_ens)
    con.inline = True

    def dist_setup(eng, st, b):
        from engine import default_args
        args = default_args(eng, st, b, eng.building)

        def fun(eng, st, a):
            s = st.copy()
            r = fresh("distance", R)
            s.trace = s.trace + (("user function", a, r),)
            return [(s, r)]
        f = args[0].f[DF]
        f.info["call"] = fun
        return args
    DF = [f["n"] for f in crate.adts["c_api::distance::DistanceFn"]["variants"][0]["f"]].index("fun")
    DD = [f["n"] for f in crate.adts["c_api::distance::DistanceFn"]["variants"][0]["f"]].index("data")

    def dist_ens(c):
        calls = [t for t in c.st.trace if t[0] == "user function"]
        if len(calls) != 1:
            return [("the function is called once", z3.BoolVal(False))]
        _, a, r = calls[0]
        res = [("its result is the distance", c.ret == r), ("it gets its data", a[0].c == c.a[0].f[DD].c)]
        for nm, ev, v in (("first", c.a[1], a[1]), ("second", c.a[2], a[2])):
            o, tv = ev.f[eO], v.f[vT]
            res.append(("id of the %s event" % nm, zi(v.f[vI]) == zi(ev.f[eI])))
            res.append(("weights of the %s event" % nm, z3.And(shown_weights(weights_of(c, c.st, ev), v.f[vW].f[0], v.f[vNW]) + [zi(v.f[vW].f[1]) == 0])))
            q = fresh("q", I)
            t, g = sel(tv.f[0], q), sel(o, q)
            rng = z3.And(0 <= q, q < zi(o.n))
            res.append(("number of kinds of particles of the %s event" % nm, z3.And(zi(v.f[vNT]) == zi(o.n), zi(tv.f[1]) == 0, zi(tv.f[0].n) >= zi(o.n))))
            res.append(("particle ids of the %s event" % nm, FA([q], z3.Implies(rng, zi(t.f[tI]) == pidval(g.f[0])), [zi(t.f[tI])])))
            res.append(("momenta of the %s event" % nm, FA([q], z3.Implies(rng, z3.And(shown_group(g.f[1], t.f[tM].f[0], t.f[tN]) + [zi(t.f[tM].f[1]) == 0])), [zi(t.f[tI])])))
        return res
    add("<c_api::distance::DistanceFn as distance::Distance>::distance", setup=dist_setup, ensures=dist_ens)

    # ---- back from a view to an event
    FROM = "c_api::event::<impl std::convert::From<c_api::event::EventView<'a>> for event::Event>::from"
    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    bW, bO = BF.index("weights"), BF.index("outgoing_by_pid")

    def view_setup(eng, st, b):
        args = default_args(eng, st, b, eng.building)
        return args

    def from_req(c):
        v = c.a[0]
        ws, ts = v.f[vW].f[0], v.f[vT].f[0]
        nw, nt = zi(v.f[vNW]), zi(v.f[vNT])
        s = fresh("s", I)
        t = sel(ts, s)
        nm = zi(t.f[tN])
        return [("weights point to enough values", z3.And(nw <= zi(ws.n), nw < 2 ** 32)),
                ("type sets point to enough values", nt <= zi(ts.n)),
                ("momenta point to enough values", FA([s], z3.Implies(z3.And(0 <= s, s < nt), nm <= zi(t.f[tM].f[0].n)), [nm])),
                # definition of BEFORE
                ("number of particles before a set", z3.And(BEFORE(0) == 0, FA([s], z3.Implies(z3.And(0 <= s, s < nt), BEFORE(s + 1) == BEFORE(s) + nm), [nm]))),
                ("memory", FA([s], z3.Implies(z3.And(0 <= s, s <= nt), z3.And(0 <= BEFORE(s), BEFORE(s) < 2 ** 32)), [BEFORE(s)]))]

    def particle(v, s, j):
        """leaves of the j-th particle of set s: id and momentum"""
        t = sel(v.f[vT].f[0], s)
        return zi(t.f[tI]), sel(t.f[tM].f[0], j).f

    def same_particle(lst, k, v, s, j):
        x = sel(lst, k)
        pid, p = particle(v, s, j)
        return z3.And([pidval(x.f[0]) == pid] + [a == b for a, b in zip(comps(x.f[1]), p)])

    def listed(v, lst, upto):
        """the first entries of a list of particles are those of the sets, one set after the other"""
        i = fresh("i", I)
        return FA([i], z3.Implies(z3.And(0 <= i, i < zi(upto)), same_particle(lst, i, v, SETOF(i), i - BEFORE(SETOF(i)))), [zi(sel(lst, i).f[1].f[iP].f[0])])

    def wlist(b, v, n):
        w = b.f[bW]
        k = fresh("k", I)
        if not isinstance(w, SeqV):
            # only the last weight is kept
            return [("the weight", z3.Implies(zi(n) > 0, w == sel(v.f[vW].f[0], zi(n) - 1)))]
        return [("number of weights", zi(w.n) == zi(n)),
                ("weights", FA([k], z3.Implies(z3.And(0 <= k, k < zi(n)), sel(w, k) == sel(v.f[vW].f[0], k)), [sel(w, k)]))]

    def inrange(L):
        it = L.it()
        return [("position", z3.And(zi(it.pos) >= 0, zi(it.pos) <= zi(it.n)))]

    def its(L):
        """the iterators of the nested loops, outermost first"""
        c = []
        for d in L.fr.body["debug"]:
            if isinstance(d["v"], list) and len(d["v"]) == 1 and d["n"] == "iter":
                x = L.st.store.get(("L", L.fr.fid, d["v"][0]))
                if isinstance(x, It):
                    c.append(x)
        return c

    def inv_w(L):
        v, b = L.call.a[0], L.v("event")
        return inrange(L) + wlist(b, v, L.it().pos) + [("no particles", zi(b.f[bO].n) == 0)]

    def inv_s(L):
        v, b = L.call.a[0], L.v("event")
        it = L.it()
        return inrange(L) + wlist(b, v, v.f[vNW]) + [("number of particles", zi(b.f[bO].n) == BEFORE(zi(it.pos))), ("particles", listed(v, b.f[bO], BEFORE(zi(it.pos))))]

    def inv_p(L):
        v, b = L.call.a[0], L.v("event")
        outer, it = its(L)[-2:]
        s, j = zi(outer.pos) - 1, zi(it.pos)
        # the particle added last belongs to this set
        L.lemma(setof(v, nt_of(v), s, j - 1), setof(v, nt_of(v), s, j))
        return inrange(L) + wlist(b, v, v.f[vNW]) + [("number of particles", zi(b.f[bO].n) == BEFORE(s) + j), ("particles", listed(v, b.f[bO], BEFORE(s) + j))]

    def nt_of(v):
        return zi(v.f[vNT])

    def setof(v, nt, s, j):
        """lemma: definition of SETOF"""
        return z3.Implies(z3.And(0 <= s, s < nt, 0 <= j, j < BEFORE(s + 1) - BEFORE(s)), SETOF(BEFORE(s) + j) == s)

    def from_ens(c):
        v, e = c.a[0], c.ret
        built = [t for t in c.st.trace if t[0] == "built"]
        if len(built) != 1:
            return [("one event is built", z3.BoolVal(False))]
        _, b, e0 = built[0]
        w = sel(c.heap1(), e.f[eW].id).f[0]
        res = [("the id", zi(e.f[eI]) == zi(v.f[vI]))]
        if isinstance(w, SeqV):
            res.append(("the weights", z3.And(shown_weights(Agg("w", [w]), v.f[vW].f[0], v.f[vNW]))))
        else:
            res.append(("the weight", z3.Implies(zi(v.f[vNW]) == 1, w == sel(v.f[vW].f[0], 0))))
        return res + [("all particles are handed over", zi(b.f[bO].n) == BEFORE(nt_of(v))),
                      ("each with its id and momentum", listed(v, b.f[bO], BEFORE(nt_of(v)))),
                      ("the event built from them is returned", z3.And([x == y for x, y in zip(encode(e0.f[eO].sh and ("seq", e0.f[eO].sh), e0.f[eO], []), encode(("seq", e.f[eO].sh), e.f[eO], []))]))]
    con = add(FROM, setup=view_setup, requires=from_req, ensures=from_ens, loops={0: LoopSpec(inv_w), 1: LoopSpec(inv_s), 2: LoopSpec(inv_p)})
    con.models["std::iter::Iterator::sum"] = telescope(BEFORE)
    con.uses = tuple("event::EventBuilder::" + f for f in ("new", "with_capacity", "add_weight", "add_outgoing", "build"))
    return cs
