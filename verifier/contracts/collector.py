"""cell_collector.rs: the collector keeps the extreme cells, the first ones and a random selection."""
from contracts.common import *

CC = "cell_collector::CellCollector::"
MAX = 10
LOOPS = {}
# the observed cells: an arbitrary sequence
VAL = {"radius": z3.Const("seen_radius", z3.ArraySort(I, R)), "members": z3.Const("seen_members", z3.ArraySort(I, I)), "weight": z3.Const("seen_weight", z3.ArraySort(I, R))}
SN = z3.Const("seen_nids", z3.ArraySort(I, I))
SI = z3.Const("seen_ids", z3.ArraySort(I, z3.ArraySort(I, I)))


def fields(crate):
    F = [f["n"] for f in crate.adts["cell_collector::CellCollector"]["variants"][0]["f"]]
    return {n: F.index(n) for n in ("first", "random", "largest_by_radius", "largest_by_members", "largest_by_weight", "count")}


def is_cell(seq, i, sn=SN, si=SI):
    """`seq` holds the event ids of the i-th cell"""
    k = fresh("k", I)
    e = sel(seq, k)
    return z3.And(zi(seq.n) == z3.Select(sn, i), FA([k], z3.Implies(z3.And(0 <= k, k < z3.Select(sn, i)), e == z3.Select(z3.Select(si, i), k)), [e]))


def low(n):
    n = zi(n)
    return z3.If(n < MAX, n, z3.IntVal(MAX))


def extreme(mp, val, cnt, sn=SN, si=SI):
    """`mp` holds the ten largest of the first cnt cells"""
    cnt = zi(cnt)
    kv = [fresh("k", s) for s in sorts(mp.ksh)]
    i = fresh("i", I)
    hi = mp.has([z3.Select(val, i), i])
    return [("as many as ten, or all", zi(mp.n) == low(cnt)),
            ("each entry is an observed cell under its number", FA(kv, z3.Implies(mp.has(kv), z3.And(0 <= kv[1], kv[1] < cnt, kv[0] == z3.Select(val, kv[1]))), [mp.has(kv)])),
            ("with the ids of its members", FA(kv, z3.Implies(mp.has(kv), is_cell(mp.get(kv), kv[1], sn, si)), [mp.has(kv)])),
            ("all of the first ten", FA([i], z3.Implies(z3.And(0 <= i, i < cnt, cnt <= MAX), hi), [z3.Select(val, i)])),
            ("every cell that is not kept is at most as large as each that is", FA([i, *kv], z3.Implies(z3.And(0 <= i, i < cnt, z3.Not(hi), mp.has(kv)), z3.Select(val, i) <= kv[0]), [z3.Select(val, i), mp.has(kv)]))]


def rand_ok(r, cnt):
    """a selection of at most ten different observed cells"""
    n = zi(r.n)
    num = lambda k: sel(r, k).f[0]
    return [("as many as ten, or all", n == low(cnt))] + rand_cells(r, cnt)


def rand_cells(r, cnt):
    num = lambda k: sel(r, k).f[0]
    return [("observed cells", forall(r.n, lambda k: z3.And(0 <= num(k), num(k) < zi(cnt)), lambda k: num(k))),
            ("all different", forall2(r.n, lambda a, b: num(a) != num(b), lambda a, b: [num(a), num(b)]))]


def rand_ids(r, sn=SN, si=SI):
    num = lambda k: sel(r, k).f[0]
    return [("with the ids of their members", forall(r.n, lambda k: is_cell(sel(r, k).f[1], num(k), sn, si), lambda k: num(k)))]


def contracts(crate, multi):
    F = fields(crate)
    CF = [f["n"] for f in crate.adts["cell::Cell"]["variants"][0]["f"]]
    cE, cM, cR, cW = (CF.index(x) for x in ("events", "members", "radius", "weight_sum"))
    KINDS = ("radius", "members", "weight")

    def inv(v, cnt, vals=VAL, sn=SN, si=SI):
        out = [("count", zi(v.f[F["count"]]) == zi(cnt))]
        f = v.f[F["first"]]
        num = lambda k: sel(f, k).f[0]
        out += [("first ten: " + l, g) for l, g in [("number", zi(f.n) == low(cnt)), ("in order", forall(f.n, lambda k: num(k) == k, num)),
                                                   ("with the ids of their members", forall(f.n, lambda k: is_cell(sel(f, k).f[1], num(k), sn, si), num))]]
        out += [("random selection: " + l, g) for l, g in rand_ok(v.f[F["random"]], cnt) + rand_ids(v.f[F["random"]], sn, si)]
        for k in KINDS:
            out += [("largest by %s: %s" % (k, l), g) for l, g in extreme(v.f[F["largest_by_" + k]], vals[k], cnt, sn, si)]
        return out

    def req(c):
        v, cell = c.old(0), c.a[1]
        n = zi(v.f[F["count"]])
        m, ev = cell.f[cM], cell.f[cE]
        ids = lambda k: zi(sel(ev, sel(m, k)).f[EV_ID])
        return inv(v, n) + [("not overflowing", z3.And(n >= 0, n < 2 ** 64 - 1)),
                            ("members are events", forall(m.n, lambda k: z3.And(0 <= sel(m, k), sel(m, k) < zi(ev.n)), lambda k: sel(m, k))),
                            ("the cell is the next one observed", z3.And(z3.Select(VAL["radius"], n) == cell.f[cR], z3.Select(VAL["weight"], n) == cell.f[cW], z3.Select(VAL["members"], n) == zi(m.n),
                                                                         z3.Select(SN, n) == zi(m.n), forall(m.n, lambda k: z3.Select(z3.Select(SI, n), k) == ids(k), lambda k: [z3.Select(z3.Select(SI, n), k)])))]

    # ---- combining: the cells seen by the second collector come after those seen by the first
    OV = {k: z3.Const("other_" + k, VAL[k].sort()) for k in KINDS}
    ON, OI = z3.Const("other_nids", SN.sort()), z3.Const("other_ids", SI.sort())
    CV = {k: z3.Const("both_" + k, VAL[k].sort()) for k in KINDS}
    CN, CI = z3.Const("both_nids", SN.sort()), z3.Const("both_ids", SI.sort())

    def both(c1):
        i = fresh("i", I)
        out = []
        for cv, a, b in [(CV[k], VAL[k], OV[k]) for k in KINDS] + [(CN, SN, ON), (CI, SI, OI)]:
            body = z3.Select(cv, i) == z3.If(i < c1, z3.Select(a, i), z3.Select(b, i - c1))
            out += [FA([i], body, [z3.Select(cv, i)])]
            out += [FA([i], z3.Implies(i < c1, z3.Select(cv, i) == z3.Select(a, i)), [z3.Select(a, i)]),
                    FA([i], z3.Implies(i >= 0, z3.Select(cv, i + c1) == z3.Select(b, i)), [z3.Select(b, i)])]
        return out

    cnt = lambda v: zi(v.f[F["count"]])

    def com_req(c):
        a, b = c.a[0], c.a[1]
        return [("first: " + l, g) for l, g in inv(a, cnt(a), VAL, SN, SI)] + [("second: " + l, g) for l, g in inv(b, cnt(b), OV, ON, OI)] + \
            [("not overflowing", z3.And(cnt(a) >= 0, cnt(b) >= 0, cnt(a) + cnt(b) < 2 ** 64))]

    def subset(v, w, c1, mine):
        """cardinality of finite sets: a map with all entries of another and one more is larger"""
        kv, e = [fresh("k", s) for s in sorts(v.ksh)], [fresh("e", s) for s in sorts(v.ksh)]
        if mine:
            inc = FA(kv, z3.Implies(v.has(kv), w.has(kv)), [v.has(kv)])
            more = z3.And(w.has(e), z3.Not(v.has(e)))
        else:
            inc = FA(kv, z3.Implies(v.has(kv), w.has([kv[0], kv[1] + c1])), [v.has(kv)])
            more = z3.And(w.has(e), e[1] < c1)
        return FA(e, z3.Implies(z3.And(inc, more), zi(v.n) < zi(w.n)), [w.has(e)])

    def com_ens(c):
        a, b, r = c.a[0], c.a[1], c.ret
        c1, c2 = cnt(a), cnt(b)
        c.lemma(*both(c1))
        for k in KINDS:
            i = F["largest_by_" + k]
            c.lemma(subset(a.f[i], r.f[i], c1, True), subset(b.f[i], r.f[i], c1, False))
        return inv(r, c1 + c2, CV, CN, CI)

    def trunc(L):
        e, st = L.eng, L.st
        p = L.arg(0)
        w, v, n = e.load(st, p), L.at_entry(p), zi(L.arg(1))
        kv, k2 = [fresh("k", s) for s in sorts(v.ksh)], [fresh("k", s) for s in sorts(v.ksh)]
        less = models.lt(e, st, decode(v.ksh, list(k2)), decode(v.ksh, list(kv)))
        return [("no entry is new", FA(kv, z3.Implies(w.has(kv), v.has(kv)), [w.has(kv)])),
                ("values are kept", z3.And([FA(kv, msel(x, kv) == msel(y, kv), [msel(x, kv)]) for x, y in zip(w.lv, v.lv)])),
                ("the removed entries are the least", FA(kv + k2, z3.Implies(z3.And(v.has(k2), z3.Not(w.has(k2)), w.has(kv)), less), [w.has(kv), v.has(k2)])),
                ("fewer only if some are removed", FA(kv, z3.Implies(z3.And(v.has(kv), zi(w.n) == zi(v.n)), w.has(kv)), [v.has(kv)])),
                ("number of entries", z3.And(zi(w.n) <= zi(v.n), z3.Or(zi(w.n) == zi(v.n), zi(w.n) >= n)))]

    def shrink(L):
        r = L.eng.load(L.st, Ptr(("L", L.fr.fid, 1), (("f", F["random"]),)))
        c = L.call
        r0 = L.eng.load(L.entry, Ptr(("L", L.fr.fid, 1), (("f", F["random"]),)))
        L.lemma(*both(cnt(c.a[0])))
        tot = cnt(c.a[0]) + cnt(c.a[1])
        return rand_cells(r, tot) + rand_ids(r, CN, CI) + [("number", z3.And(zi(r.n) <= zi(r0.n), z3.Or(zi(r.n) == zi(r0.n), zi(r.n) >= MAX)))]

    LOOPS[("cell_collector::truncate", 0)] = LoopSpec(trunc, lambda L: zi(L.eng.load(L.st, L.arg(0)).n))
    com = Contract(CC + "combine", requires=com_req, ensures=com_ens, props=("C16",),
                   loops={0: LoopSpec(shrink, lambda L: zi(L.eng.load(L.st, Ptr(("L", L.fr.fid, 1), (("f", F["random"]),))).n))})
    com.facts = lambda c: both(cnt(c.a[0]))
    # ---- data of one thread
    OF = [f["n"] for f in crate.adts["resampler::ObserverData"]["variants"][0]["f"]]
    oC, oN, oR = OF.index("cell_collector"), OF.index("nneg"), OF.index("cell_radii")
    has = lambda o: zi(o.f[oC].d) == 1
    col = lambda o: o.f[oC].pay[1].f[0]

    def od_req(c):
        a, b = c.a[0], c.a[1]
        return [("first: " + l, z3.Implies(has(a), g)) for l, g in inv(col(a), cnt(col(a)), VAL, SN, SI)] + \
            [("second: " + l, z3.Implies(has(b), g)) for l, g in inv(col(b), cnt(col(b)), OV, ON, OI)] + \
            [("not overflowing", z3.And(z3.Implies(has(a), cnt(col(a)) >= 0), z3.Implies(has(b), cnt(col(b)) >= 0), z3.Implies(z3.And(has(a), has(b)), cnt(col(a)) + cnt(col(b)) < 2 ** 64),
                                        zi(a.f[oN]) + zi(b.f[oN]) < 2 ** 64))]

    def od_ens(c):
        a, b, r = c.a[0], c.a[1], c.ret
        d = r.f[oC].d
        out = [("there is a collector if either had one", (zi(d) == 1) == z3.Or(has(a), has(b))), ("counts are added up", zi(r.f[oN]) == zi(a.f[oN]) + zi(b.f[oN])),
               ("radii are collected", zi(r.f[oR].n) == zi(a.f[oR].n) + zi(b.f[oR].n))]
        if isinstance(d, int) and d == 0:
            return out
        q = col(r)
        c1, c2 = cnt(col(a)), cnt(col(b))
        c.lemma(*[z3.Implies(z3.And(has(a), has(b)), x) for x in both(c1)])
        out += [("both: " + l, z3.Implies(z3.And(has(a), has(b)), g)) for l, g in inv(q, c1 + c2, CV, CN, CI)]
        out += [("only the first: " + l, z3.Implies(z3.And(has(a), z3.Not(has(b))), g)) for l, g in inv(q, c1, VAL, SN, SI)]
        out += [("only the second: " + l, z3.Implies(z3.And(has(b), z3.Not(has(a))), g)) for l, g in inv(q, c2, OV, ON, OI)]
        return out

    def od_new(c):
        r, a = c.ret, c.old(0)
        d = r.f[oC].d
        out = [("collects cells if the original does", (zi(d) == 1) == has(a)), ("nothing seen yet", z3.And(zi(r.f[oN]) == 0, zi(r.f[oR].n) == 0))]
        return out + ([] if isinstance(d, int) and d == 0 else [("empty: " + l, z3.Implies(zi(d) == 1, g)) for l, g in inv(col(r), 0)])

    od = "resampler::ObserverData::"
    return [Contract(od + "combine", requires=od_req, ensures=od_ens, props=("C16",)), Contract(od + "restarted", ensures=od_new, props=("C16",)), com,
            Contract(CC + "new", ensures=lambda c: inv(c.ret, 0), props=("C16",)),
            Contract(CC + "collect", requires=req, ensures=lambda c: inv(c.new(0), zi(c.old(0).f[F["count"]]) + 1), modifies={0: [()]}, props=("C16",))]
