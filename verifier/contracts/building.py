"""event.rs: an event built from a list of particles groups them and loses none."""
from contracts.common import *
from contracts.lemmas import LEMMAS

COMPRESS = "event::compress_outgoing"
GI = z3.Function("group_of", z3.ArraySort(I, I), I, I)      # group of the j-th particle of a sorted list
ST = z3.Function("place_of", z3.ArraySort(I, I), I, I)      # its place in that group
SLOT = z3.Function("slot", z3.ArraySort(I, I), I, I, I)     # which particle is at a place of a group
FST = z3.Function("start_of", z3.ArraySort(I, I), I, I)     # first particle of a group


def pidval(v):
    while isinstance(v, Agg):
        v = v.f[0]
    return v


def gdef(P, j):
    """definition of group and place at j, by recursion over the list"""
    j = zi(j)
    same = z3.Select(P, j) == z3.Select(P, j - 1)
    return z3.And(z3.Implies(j == 0, z3.And(GI(P, j) == 0, ST(P, j) == 0)),
                  z3.Implies(z3.And(j > 0, same), z3.And(GI(P, j) == GI(P, j - 1), ST(P, j) == ST(P, j - 1) + 1)),
                  z3.Implies(z3.And(j > 0, z3.Not(same)), z3.And(GI(P, j) == GI(P, j - 1) + 1, ST(P, j) == 0)))


def sdef(P):
    """definition of the first particle of a group"""
    j = fresh("j", I)
    q, r = fresh("q", I), fresh("r", I)
    return z3.And(FA([j], FST(P, GI(P, j)) == j - ST(P, j), [GI(P, j)]),
                  FA([q, r], SLOT(P, q, r) == FST(P, q) + r, [SLOT(P, q, r)]))


def grouped(src, out, k, pidk=None):
    """`out` holds the first k particles of the sorted list `src` in groups: [(label, formula)]"""
    P = src.lv[0]
    k, G = zi(k), zi(out.n)
    pid = lambda q: pidval(sel(out, q).f[0])
    grp = lambda q: sel(out, q).f[1]
    size = lambda q: zi(grp(q).n)
    j, q, r, q2 = fresh("j", I), fresh("q", I), fresh("r", I), fresh("q2", I)

    def leaves(g, pos, jj):
        return z3.And([x == y for x, y in zip(encode(g.sh, sel(g, pos), []), [z3.Select(a, jj) for a in src.lv[1:]])])
    jj = z3.And(0 <= j, j < k)
    f = SLOT(P, q, r)
    return [
        ("number of groups", z3.And(G >= 0, z3.If(k == 0, G == 0, G == GI(P, k - 1) + 1))),
        ("each particle has a place in a group of its id", FA([j], z3.Implies(jj, z3.And(0 <= GI(P, j), GI(P, j) < G, pid(GI(P, j)) == z3.Select(P, j), 0 <= ST(P, j), ST(P, j) < size(GI(P, j)))), [GI(P, j)])),
        ("and that place holds its momentum", FA([j], z3.Implies(jj, leaves(grp(GI(P, j)), ST(P, j), j)), [GI(P, j)])),
        ("the last group ends with the last particle", z3.Implies(k > 0, size(G - 1) == ST(P, k - 1) + 1)),
        ("each place holds one particle", FA([q, r], z3.Implies(z3.And(0 <= q, q < G, 0 <= r, r < size(q)), z3.And(0 <= f, f < k, f == FST(P, q) + r, GI(P, f) == q, ST(P, f) == r)), [SLOT(P, q, r)])),
        ("no group is empty", FA([q], z3.Implies(z3.And(0 <= q, q < G), size(q) >= 1), [size(q)])),
        ("groups come in strictly decreasing order of id", FA([q, q2], z3.Implies(z3.And(0 <= q, q < q2, q2 < G), pid(q) > pid(q2)), [pid(q), pid(q2)])),
    ]


def loop_inv(L):
    it = L.it()
    src = it.meta.get("owned")
    if not isinstance(src, SeqV) or not is0(src.off):
        raise Unsupported("the loop does not run over a list of particles")
    out = L.v("outgoing_by_pid")
    P = src.lv[0]
    L.lemma(gdef(P, zi(it.pos) - 1), gdef(P, it.pos), sdef(P))
    return [("position", z3.And(zi(it.pos) >= 0, zi(it.pos) <= zi(it.n)))] + grouped(src, out, it.pos)


LOOPS = {(COMPRESS, 0): LoopSpec(loop_inv)}


def contracts(crate, multi):
    cs = []

    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    EF = [f["n"] for f in crate.adts["event::Event"]["variants"][0]["f"]]
    bW, bO = BF.index("weights"), BF.index("outgoing_by_pid")
    eI, eW, eO = EF.index("id"), EF.index("weights"), EF.index("outgoing_by_pid")
    EB = "event::EventBuilder::"

    def perm(c):
        ps = [t for t in c.st.trace if t[0] == "perm"]
        if len(ps) != 1:
            raise Unsupported("particles are not sorted exactly once")
        return ps[0]

    def grouping(c, src, out):
        _, pi, inv, w = perm(c)
        N = zi(src.n)
        i = fresh("i", I)
        if not is0(src.off) or not is0(w.off):
            raise Unsupported("particles of a part of a list")
        c.lemma(sdef(w.lv[0]))
        return grouped(w, out, N) + [("the particles are those given", z3.And(
            FA([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= inv(i), inv(i) < N, pi(inv(i)) == i, *[z3.Select(a, i) == z3.Select(b, inv(i)) for a, b in zip(src.lv, w.lv)])), [inv(i)]),
            FA([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= pi(i), pi(i) < N, inv(pi(i)) == i)), [pi(i)])))]

    def add(path, **kw):
        con = Contract(path, props=("C07",), **kw)
        con.inline = True
        cs.append(con)
        return con
    add(COMPRESS, ensures=lambda c: grouping(c, c.a[0], c.ret), loops={0: LOOPS[(COMPRESS, 0)]})

    def same_seq(a, b):
        k = fresh("k", I)
        return [zi(a.n) == zi(b.n)] + [FA([k], z3.Implies(z3.And(0 <= k, k < zi(b.n)), z3.Select(x, k) == z3.Select(y, k)), [z3.Select(x, k)]) for x, y in zip(a.lv, b.lv)]

    def same_weights(a, b):
        return z3.And(same_seq(a, b)) if isinstance(a, SeqV) else a == b

    def build_ens(c):
        b, e = c.a[0], c.ret
        w = sel(c.heap1(), e.f[eW].id).f[0]
        res = [("the id is zero until it is set", zi(e.f[eI]) == 0),
               ("weights are those added, in their order", same_weights(w, b.f[bW]))]
        if c.caller:
            # callers that need the grouping see which list it is about
            return res
        return res + grouping(c, b.f[bO], e.f[eO])

    def built(c):
        e = c.eng.arb({"k": "adt", "p": "event::Event", "a": []}, {}, "built", c.st)
        c.st.trace = c.st.trace + (("built", c.a[0], e),)
        return e
    add(EB + "build", ensures=build_ens, returns=built)
    frm = [p for p in crate.bypath if p.startswith("<event::Event as std::convert::From<event::EventBuilder") and p.endswith("::from")]
    for p in frm:
        add(p, ensures=build_ens)

    def empty_ens(c):
        b = c.ret
        return [("no particles", zi(b.f[bO].n) == 0)] + ([("no weights", zi(b.f[bW].n) == 0)] if multi else [])
    add(EB + "new", ensures=empty_ens)
    add(EB + "with_capacity", ensures=empty_ens, requires=lambda c: [("capacity", zi(c.a[0]) < 2 ** 32)])

    def appended(a1, a0, vals):
        """a1 is a0 with one more element"""
        k = fresh("k", I)
        return z3.And(zi(a1.n) == zi(a0.n) + 1, *[z3.Select(x, a0.n) == v for x, v in zip(a1.lv, vals)],
                      *[FA([k], z3.Implies(z3.And(0 <= k, k < zi(a0.n)), z3.Select(x, k) == z3.Select(y, k)), [z3.Select(x, k)]) for x, y in zip(a1.lv, a0.lv)])

    def room(i):
        return lambda c: [("memory", zi(c.old(0).f[i].n) < 2 ** 62)] if isinstance(c.old(0).f[i], SeqV) else []

    def addout_ens(c):
        b0, b1 = c.old(0), c.new(0)
        return [("the particle is added to the others", appended(b1.f[bO], b0.f[bO], encode(b0.f[bO].sh, Agg("tuple", [c.a[1], c.a[2]]), []))),
                ("weights are kept", same_weights(b1.f[bW], b0.f[bW]))]
    add(EB + "add_outgoing", requires=room(bO), ensures=addout_ens, modifies={0: [()]})

    def addw_ens(c):
        b0, b1 = c.old(0), c.new(0)
        w0, w1 = b0.f[bW], b1.f[bW]
        return [("the weight is added to the others" if multi else "the weight is set", appended(w1, w0, [c.a[1]]) if multi else w1 == c.a[1]),
                ("particles are kept", z3.And(same_seq(b1.f[bO], b0.f[bO])))]
    add(EB + "add_weight", requires=room(bW), ensures=addw_ens, modifies={0: [()]})

    from contracts.fourvec import fields
    iT, iP = fields(crate)

    def resc_ens(c):
        b0, b1 = c.old(0), c.new(0)
        o0, o1 = b0.f[bO], b1.f[bO]
        s = c.a[1]
        k = fresh("k", I)
        x0, x1 = sel(o0, k), sel(o1, k)
        p0, p1 = x0.f[1], x1.f[1]
        rng = z3.And(0 <= k, k < zi(o0.n))
        pat = [encode(o1.sh, x1, [])[0]]
        res = [("number of particles", zi(o1.n) == zi(o0.n)), ("ids are kept", FA([k], z3.Implies(rng, pidval(x1.f[0]) == pidval(x0.f[0])), pat)),
               ("weights are kept", same_weights(b1.f[bW], b0.f[bW]))]
        for i in range(4):
            res.append(("component %d is rescaled" % i, FA([k], z3.Implies(rng, p1.f[iP].f[i] == s * p0.f[iP].f[i]), pat)))
        x, y, t = p1.f[iP].f[1], p1.f[iP].f[2], p1.f[iT]
        res.append(("transverse momenta are consistent", FA([k], z3.Implies(rng, z3.And(t >= 0, t * t == x * x + y * y)), pat)))
        return res
    con = add(EB + "rescale_energies", ensures=resc_ens, modifies={0: [()]})
    con.props = ("C07", "C19")

    # ---- looking up a particle id
    def lk(c):
        return models.ld(c.eng, c.st, c.a[0]).f[eO]

    def decreasing(c):
        o = lk(c)
        i, j = fresh("i", I), fresh("j", I)
        return [("groups come in strictly decreasing order of id", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(o.n)), pidval(sel(o, i).f[0]) > pidval(sel(o, j).f[0])), [pidval(sel(o, i).f[0]), pidval(sel(o, j).f[0])]))]

    def look_ens(c):
        o, r = lk(c), c.ret
        want = pidval(c.a[1])
        q, k = fresh("q", I), fresh("k", I)
        g = sel(o, q).f[1]
        if not isinstance(r, SeqV):
            return [("the result is a list of momenta", z3.BoolVal(isinstance(r, Agg) and not r.f)),
                    ("nothing is found only if there is no such particle", FA([q], z3.Implies(z3.And(0 <= q, q < zi(o.n)), pidval(sel(o, q).f[0]) != want), [pidval(sel(o, q).f[0])]))]
        same = z3.And([zi(r.n) == zi(g.n)] + [FA([k], z3.Implies(z3.And(0 <= k, k < zi(r.n)), z3.Select(x, zi(add_(r.off, k))) == z3.Select(y, zi(add_(g.off, k)))), [z3.Select(x, zi(add_(r.off, k)))]) for x, y in zip(r.lv, g.lv)])
        return [("the momenta of that id", FA([q], z3.Implies(z3.And(0 <= q, q < zi(o.n), pidval(sel(o, q).f[0]) == want), same), [pidval(sel(o, q).f[0])])),
                ("no momenta if there is no such particle", z3.Implies(zi(r.n) > 0, z3.Exists([q], z3.And(0 <= q, q < zi(o.n), pidval(sel(o, q).f[0]) == want))))]
    add("event::Event::outgoing_with_pid", requires=decreasing, ensures=look_ens)

    def all_ens(c):
        o, r = lk(c), c.ret
        return [("all groups", z3.And([zi(r.n) == zi(o.n)] + [x == y for x, y in zip(r.lv, o.lv)]))]
    add("event::Event::outgoing", ensures=all_ens)
    add("event::Event::into_outgoing", ensures=all_ens)
    add("event::Event::id", ensures=lambda c: [("the id", zi(c.ret) == zi(models.ld(c.eng, c.st, c.a[0]).f[eI]))])
    return cs


def add_(a, b):
    return add(a, b)
