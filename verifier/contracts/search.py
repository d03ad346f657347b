"""neighbour_search.rs: the naive search, and the two ways to start a search over n events."""
from contracts.common import *
from contracts.lemmas import LEMMAS, PROOFS
from contracts.vptree import D, TREE, leaves, distance_model

MOD = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}


def contracts(crate, multi):
    cs = []
    byp = crate.bypath

    def find(pre, post):
        c = [p for p in byp if p.startswith(pre) and p.endswith(post)]
        if len(c) != 1:
            raise Unsupported("function %s %s" % (pre, post))
        return c[0]
    F = [f["n"] for f in crate.adts["neighbour_search::NaiveSearchData"]["variants"][0]["f"]]
    fD, fC, fM = [F.index(x) for x in ("dist", "cached_dist", "max_dist")]
    G = [f["n"] for f in crate.adts["neighbour_search::NaiveNeighbourIter"]["variants"][0]["f"]]
    gD, gC, gM = [G.index(x) for x in ("dist", "candidates", "max_dist")]

    def cand_ok(s, n):
        """the candidates are different positions"""
        c = s.f[gC]
        return [("candidates are positions", forall(c.n, lambda k: z3.And(0 <= sel(c, k), sel(c, k) < n), lambda k: z3.Select(c.lv[0], k))),
                ("candidates are different", forall2(c.n, lambda i, j: sel(c, i) != sel(c, j), lambda i, j: [z3.Select(c.lv[0], i), z3.Select(c.lv[0], j)]))]

    def among(c, x, w):
        return z3.And(0 <= w, w < zi(c.n), sel(c, w) == x)


    def data_req(t):
        c = t.f[fC]
        return [("one entry for each event", forall(c.n, lambda k: sel(c, k).f[0] == k, lambda k: z3.Select(c.lv[0], k)))]


    # new(dist, seed, max_dist)
    def new_ens(c):
        r = c.ret
        d0 = c.old(0)
        d, q, p = r.f[gD], r.f[gC], zi(c.a[1])
        n = zi(d0.n)
        return cand_ok(r, n) + [("the seed is no candidate", forall(q.n, lambda k: sel(q, k) != p, lambda k: z3.Select(q.lv[0], k))),
                                ("all but the seed are candidates", zi(q.n) == n - 1),
                                ("the distances are those given", z3.And(zi(d.n) == n, *[x == y for x, y in zip(d.lv, d0.lv)])),
                                ("the maximum distance is the one given", r.f[gM] == c.a[2])]
    con = Contract("neighbour_search::NaiveNeighbourIter::new", requires=lambda c: [("the seed is one of the events", z3.And(0 <= zi(c.a[1]), zi(c.a[1]) < zi(c.a[0].n)))],
                   ensures=new_ens, props=("C04",))
    con.inline = True
    cs.append(con)

    # nearest(&data, &seed)
    def nearest_ens(c):
        r, t = c.ret, c.a[0]
        t = models.ld(c.eng, c.st, t)
        d, q, p = r.f[gD], r.f[gC], zi(models.ld(c.eng, c.st, c.a[1]))
        n = zi(t.f[fC].n)
        return cand_ok(r, n) + [("the seed is no candidate", forall(q.n, lambda k: sel(q, k) != p, lambda k: z3.Select(q.lv[0], k))),
                                ("all but the seed are candidates", zi(q.n) == n - 1),
                                ("one distance for each event", zi(d.n) == n),
                                ("the distances are those to the seed", forall(n, lambda k: sel(d, k).f[1] == D(k, p), lambda k: sel(d, k).f[1])),
                                ("the maximum distance is the one given", r.f[gM] == t.f[fM])]
    con = Contract(find("<&neighbour_search::NaiveSearchData<D>", "::nearest"),
                   requires=lambda c: data_req(models.ld(c.eng, c.st, c.a[0])) + [("the seed is one of the events", z3.And(0 <= zi(models.ld(c.eng, c.st, c.a[1])), zi(models.ld(c.eng, c.st, c.a[1])) < zi(models.ld(c.eng, c.st, c.a[0]).f[fC].n)))],
                   ensures=nearest_ens, props=("C04",))
    con.models = MOD
    cs.append(con)

    def next_ens(c):
        s0, s1 = c.old(0), c.new(0)
        d, c0, c1 = s0.f[gD], s0.f[gC], s1.f[gC]
        r = c.ret
        some_ = zi(r.d) == 1
        x, dd = (zi(r.pay[1].f[0].f[0]), r.pay[1].f[0].f[1]) if 1 in r.pay and r.pay[1] is not None else (z3.IntVal(0), z3.RealVal(0))
        w = fresh("w", I)
        n0, n1 = zi(c0.n), zi(c1.n)
        dist = lambda i: sel(d, i).f[1]
        pos = lambda k: z3.Select(c0.lv[0], k)
        k, j = fresh("k", I), fresh("j", I)
        best = [t for t in c.st.trace if t[0] == "best"]
        return [("the result is a candidate", z3.Implies(some_, z3.Exists([w], z3.And(0 <= w, w < n0, sel(c0, w) == x)))),
                ("with its distance", z3.Implies(some_, dd == dist(x))), ("within the maximum distance", z3.Implies(some_, dd <= s0.f[gM])),
                ("no candidate is nearer", FA([k], z3.Implies(z3.And(some_, 0 <= k, k < n0), dist(sel(c0, k)) >= dd), [pos(k)])),
                ("no candidate is missed", FA([k], z3.Implies(z3.And(z3.Not(some_), 0 <= k, k < n0), dist(sel(c0, k)) > s0.f[gM]), [pos(k)])),
                ("the result is no candidate any more", z3.Implies(some_, forall(n1, lambda k: sel(c1, k) != x, lambda k: z3.Select(c1.lv[0], k)))),
                ("no other candidate is lost", FA([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Or(z3.And(some_, sel(c0, k) == x), z3.Exists([j], z3.And(0 <= j, j < n1, sel(c1, j) == sel(c0, k))))), [pos(k)])),
                ("no candidate is added", FA([k], z3.Implies(z3.And(0 <= k, k < n1), z3.Exists([j], z3.And(0 <= j, j < n0, sel(c0, j) == sel(c1, k)))), [z3.Select(c1.lv[0], k)])),
                ("distances and their maximum stay", z3.And(s1.f[gM] == s0.f[gM], zi(s1.f[gD].n) == zi(d.n), *[a == b for a, b in zip(s1.f[gD].lv, d.lv)]))] + cand_ok(s1, zi(d.n))
    con = Contract("<neighbour_search::NaiveNeighbourIter as std::iter::Iterator>::next", requires=lambda c: cand_ok(c.old(0), zi(c.old(0).f[gD].n)),
                   ensures=next_ens, modifies={0: [()]}, props=("C04",))
    cs.append(con)

    # starting a search over n events
    def naive_new_ens(c):
        t = c.ret
        return data_req(t) + [("one entry per event", zi(t.f[fC].n) == zi(c.a[0])), ("the maximum distance is the one given", t.f[fM] == c.a[2])]
    con = Contract(find("<neighbour_search::NaiveNeighbourSearch", "::new_with_dist"), ensures=naive_new_ens, props=("C04",))
    cs.append(con)

    T = [f["n"] for f in crate.adts["vptree::VPTree"]["variants"][0]["f"]]
    iN, iMx = T.index("nodes"), T.index("max_dist")

    def tree_new_ens(c):
        t = c.ret
        nodes = t.f[iN]
        n = zi(c.a[0])
        trees = [x for x in c.st.trace if x[0] == "tree"]
        if len(trees) != 1:
            raise Unsupported("the tree is not built once")
        _, a, tb, tn, td = trees[0]
        a1 = leaves(nodes)
        # completeness: the limit on the depth is never reached
        lem = [LEMMAS["tree_cong"](a, a1, tb, tn, td), LEMMAS["tree_deep"](a1, z3.IntVal(0), n, z3.IntVal(2 ** 64 - 1), n)]
        return [("one node per event", zi(nodes.n) == n), ("the nodes form a complete tree", TREE(*a1, z3.IntVal(0), n, n), {"lemmas": lem}),
                ("the maximum distance is the one given", t.f[iMx] == c.a[2])]
    con = Contract(find("<neighbour_search::TreeSearch as neighbour_search::NeighbourSearchAlgo", "::new_with_dist"), ensures=tree_new_ens, props=("C04", "C05"))
    con.forward = True
    con.models = MOD
    cs.append(con)
    return cs


def prove_order():
    """two consecutive results, from the postconditions of `next` alone: neither twice nor out of order"""
    V = z3.Const("V", z3.ArraySort(I, I))
    n, pt, p1, p2, w1, w2 = z3.Ints("n pt p1 p2 w1 w2")
    d1, d2, mx = z3.Reals("d1 d2 mx")
    ex = z3.Const("ex", z3.ArraySort(I, B))

    def step(ex, p, d, w, k):
        vk = z3.Select(V, k)
        out = lambda q: z3.Or(q == pt, z3.Select(ex, q))
        return [0 <= w, w < n, z3.Select(V, w) == p, d == D(pt, p), d <= mx, z3.Not(out(p)),
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Or(out(vk), D(pt, vk) >= d)), patterns=[vk])]
    k = z3.Int("k")
    ex2 = z3.Store(ex, p1, z3.BoolVal(True))
    h = step(ex, p1, d1, w1, k) + step(ex2, p2, d2, w2, k)
    # naive search: the candidates after the first step are among those before it
    C0, C1 = z3.Const("C0", z3.ArraySort(I, I)), z3.Const("C1", z3.ArraySort(I, I))
    n0, n1 = z3.Ints("n0 n1")
    dist = z3.Function("dist_of", I, R)
    j = z3.Int("j")
    naive = [0 <= w2, w2 < n1, z3.Select(C1, w2) == p2, d2 == dist(p2), d1 == dist(p1),
             z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), dist(z3.Select(C0, k)) >= d1), patterns=[z3.Select(C0, k)]),
             z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n1), z3.Exists([j], z3.And(0 <= j, j < n0, z3.Select(C0, j) == z3.Select(C1, k)))), patterns=[z3.Select(C1, k)]),
             z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n1), z3.Select(C1, k) != p1), patterns=[z3.Select(C1, k)])]
    return [("tree search: neighbours come in the order of their distance", h, d1 <= d2), ("tree search: no neighbour comes twice", h, p1 != p2),
            ("naive search: neighbours come in the order of their distance", naive, d1 <= d2), ("naive search: no neighbour comes twice", naive, p1 != p2)]


PROOFS += prove_order()
