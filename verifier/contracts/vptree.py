"""vptree.rs: building vantage-point trees and searching them."""
from contracts.common import *
from contracts.lemmas import LEMMAS, PROOFS, V_next

# P is only compared, hashed and copied by the generic code; an arbitrary countable set of points stands for it, so
# that the contracts also serve callers with P = usize
PS = I
D = z3.Function("dist", PS, PS, R)
AP, AIn, AR_ = z3.ArraySort(I, PS), z3.ArraySort(I, I), z3.ArraySort(I, R)
TREE = z3.Function("TREE", AP, AIn, AR_, AIn, I, I, I, B)


def leaves(seq):
    """vantage points, children?, radii, offsets of the outside"""
    lv = seq.lv[-4:]
    if [a.sort() for a in lv] != [AP, AIn, AR_, AIn]:
        raise Unsupported("node layout")
    return lv


def tree_def(V, C, RR, O, b, n, d):
    """definition of a vantage-point tree over the nodes [b, b+n) of at most d layers of bisections"""
    b, n, d = zi(b), zi(n), zi(d)
    k = fresh("k", I)
    m = z3.Select(O, b)
    inside = FA([k], z3.Implies(z3.And(b + 1 <= k, k < b + 1 + m), D(z3.Select(V, b), z3.Select(V, k)) <= z3.Select(RR, b)), [z3.Select(V, k)])
    outside = FA([k], z3.Implies(z3.And(b + 1 + m <= k, k < b + n), D(z3.Select(V, b), z3.Select(V, k)) >= z3.Select(RR, b)), [z3.Select(V, k)])
    leaf = FA([k], z3.Implies(z3.And(b <= k, k < b + n), z3.Select(C, k) == 0), [z3.Select(C, k)])
    node = z3.And(z3.Select(C, b) == 1, m >= 0, n - 1 - m - m >= 0, n - 1 - m - m <= 1, inside, outside,
                  TREE(V, C, RR, O, b + 1, m, d - 1), TREE(V, C, RR, O, b + 1 + m, n - 1 - m, d - 1))
    return TREE(V, C, RR, O, b, n, d) == z3.If(n <= 0, z3.BoolVal(True), z3.If(z3.Or(n == 1, d <= 0), leaf, node))


def lemma_tree_cong(a, a2, b, n, d):
    """a tree is determined by the nodes of its range"""
    b, n, d = zi(b), zi(n), zi(d)
    k = fresh("k", I)
    same = [FA([k], z3.Implies(z3.And(b <= k, k < b + n), z3.And([z3.Select(x, k) == z3.Select(y, k) for x, y in zip(a, a2)])), [z3.Select(z, k)]) for z in list(a) + list(a2)]
    return z3.Implies(z3.And(same), TREE(*a, b, n, d) == TREE(*a2, b, n, d))


LEMMAS["tree_cong"] = lemma_tree_cong


def prove_tree_cong():
    a = [z3.Const("V", AP), z3.Const("C", AIn), z3.Const("R", AR_), z3.Const("O", AIn)]
    a2 = [z3.Const("V2", AP), z3.Const("C2", AIn), z3.Const("R2", AR_), z3.Const("O2", AIn)]
    b, n, d = z3.Ints("b n d")
    m = z3.Select(a[3], b)
    defs = [tree_def(*a, b, n, d), tree_def(*a2, b, n, d)]
    # induction on n: both sides are shorter
    ih = [z3.Implies(z3.And(m >= 0, m <= n - 1), lemma_tree_cong(a, a2, b + 1, m, d - 1)),
          z3.Implies(z3.And(m >= 0, m <= n - 1), lemma_tree_cong(a, a2, b + 1 + m, n - 1 - m, d - 1))]
    k = z3.Int("kk")
    hyp = lemma_tree_cong(a, a2, b, n, d).arg(0)
    return [("tree_cong, empty or leaves", defs + [hyp, z3.Or(n <= 1, d <= 0)], TREE(*a, b, n, d) == TREE(*a2, b, n, d)),
            ("tree_cong, step, forwards", defs + ih + [hyp, n > 1, d > 0, TREE(*a, b, n, d)], TREE(*a2, b, n, d)),
            ("tree_cong, step, backwards", defs + ih + [hyp, n > 1, d > 0, TREE(*a2, b, n, d)], TREE(*a, b, n, d))]


PROOFS += prove_tree_cong()


def distance_model(eng, st, a, info):
    """the distance is an arbitrary function of the two points"""
    return [(st, D(models.ld(eng, st, a[1]), models.ld(eng, st, a[2])))]


T = "vptree::VPTree::<P, DF>::"


def contracts(crate, multi):
    cs = []

    # ---------------------------------------------------------------- building
    def setup(eng, st, b):
        args = default_args(eng, st, b, eng.building)
        s = st.store[args[0].root]
        base = fresh("base", I)
        st.fact(base >= 0)
        st.store[args[0].root] = SeqV(s.sh, s.lv, base, s.n)
        return args

    def req(c):
        p = c.old(0)
        V, C, RR, O = leaves(p)
        return [("no node has children yet", forall(p.n, lambda k: z3.Select(C, zi(p.off) + k) == 0)),
                ("no node has children yet (by position)", in_range(p, lambda i: z3.Select(C, i) == 0, lambda i: z3.Select(C, i)))]

    def in_range(p, f, pat):
        i = fresh("i", I)
        return FA([i], z3.Implies(z3.And(zi(p.off) <= i, i < zi(p.off) + zi(p.n)), f(i)), [pat(i)])

    def perm_facts(p0, p1, pi, inv):
        n = zi(p0.n)
        V0, V1 = leaves(p0)[0], leaves(p1)[0]
        b0, b1 = zi(p0.off), zi(p1.off)
        return [("every point is one of the given points", forall(n, lambda k: z3.And(0 <= pi(k), pi(k) < n, z3.Select(V1, b1 + k) == z3.Select(V0, b0 + pi(k))))),
                ("each at its place", in_range(p1, lambda i: z3.And(0 <= pi(i - b1), pi(i - b1) < n, z3.Select(V1, i) == z3.Select(V0, b0 + pi(i - b1))), lambda i: z3.Select(V1, i))),
                ("no point twice", forall(n, lambda k: inv(pi(k)) == k, lambda k: pi(k))),
                ("no point lost", forall(n, lambda k: z3.And(0 <= inv(k), inv(k) < n, pi(inv(k)) == k), lambda k: inv(k)))]

    def ens(c):
        p0, p1 = c.old(0), c.new(0)
        n, d = zi(p0.n), zi(c.a[2])
        if c.caller:
            pi, inv = freshfn("pi", I, I), freshfn("inv", I, I)
            c.st.trace = c.st.trace + (("sub", p0, pi, inv),)
            return perm_facts(p0, p1, pi, inv) + [("same length", zi(p1.n) == n), ("tree", TREE(*leaves(p1), p1.off, n, d))]
        perms = [t for t in c.st.trace if t[0] == "perm"]
        subs = [t for t in c.st.trace if t[0] == "sub"]
        same = [("same length", zi(p1.n) == n), ("same place", zi(p1.off) == zi(p0.off))]
        a1, b = leaves(p1), zi(p1.off)
        c.lemma(tree_def(*a1, b, n, d))
        stages = []
        if not perms and len(subs) == 1:
            # hands over to another construction
            _, _, pi, inv = subs[0]
        elif not perms and not subs:
            pi = inv = lambda k: k
        elif len(perms) == 1 and len(subs) == 2:
            _, pabs, vabs, *_ = perms[0]
            ps, pv = (lambda j: pabs(b + 1 + j) - b - 1), (lambda j: vabs(b + 1 + j) - b - 1)
            (_, q1, pi1, inv1), (_, q2, pi2, inv2) = subs
            m = zi(q1.n)
            sw = lambda i: z3.If(i == 0, n - 1, z3.If(i == n - 1, z3.IntVal(0), i))
            # position after building the two sides -> after sorting -> after the swap -> at the beginning
            (S, Si), (U, Ui) = [(freshfn(x, I, I), freshfn(x + "_inv", I, I)) for x in ("built", "sorted")]
            k = fresh("k", I)
            c.lemma(*[FA([k], f(k) == e, [f(k)]) for f, e in (
                (S, z3.If(k <= 0, k, 1 + z3.If(k - 1 < m, pi1(k - 1), m + pi2(k - 1 - m)))),
                (Si, z3.If(k <= 0, k, 1 + z3.If(k - 1 < m, inv1(k - 1), m + inv2(k - 1 - m)))),
                (U, z3.If(k <= 0, k, 1 + ps(k - 1))), (Ui, z3.If(k <= 0, k, 1 + pv(k - 1))))])
            for nm, f, fi in (("building the sides", S, Si), ("sorting", U, Ui)):
                stages.append((nm + " permutes", FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= f(k), f(k) < n, fi(f(k)) == k)), [f(k)])))
                stages.append((nm + " permutes (inverse)", FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= fi(k), fi(k) < n, f(fi(k)) == k)), [fi(k)])))
            pi = lambda k: sw(U(S(k)))
            inv = lambda k: Si(Ui(sw(k)))
        else:
            raise Unsupported("points are not swapped, sorted and split once")
        lem = []
        for t in c.st.trace:
            if t[0] == "tree":
                _, a, tb, tn, td = t
                lem.append(LEMMAS["tree_cong"](a, a1, tb, tn, td))
        parts = []
        if len(subs) == 2:
            V, C, RR, O = a1
            m = z3.Select(O, b)
            k = fresh("k", I)
            dk = D(z3.Select(V, b), z3.Select(V, k))
            d1, V1 = q1.lv[0], leaves(q1)[0]
            j = fresh("j", I)
            ins, outs = z3.And(b + 1 <= k, k < b + 1 + m), z3.And(b + 1 + m <= k, k < b + n)
            dj = D(z3.Select(V1, b), z3.Select(V1, k))
            q = lambda g, x, pat: FA([k], z3.Implies(x, g), [pat])
            parts0 = [("the first node bisects", z3.And(z3.Select(C, b) == 1, m == zi(q1.n), m >= 0, n - 1 - m - m >= 0, n - 1 - m - m <= 1)),
                      ("the distances are those to the vantage point", q(z3.Select(d1, k) == dj, z3.And(b + 1 <= k, k < b + n), z3.Select(V1, k))),
                      ("the radius is the distance of the first outside point", z3.Select(RR, b) == z3.Select(d1, b + 1 + m)),
                      ("sorted inside", q(z3.Select(d1, k) <= z3.Select(d1, b + 1 + m), ins, z3.Select(V1, k)), {"use": ["the first node bisects"]}),
                      ("sorted outside", q(z3.Select(d1, k) >= z3.Select(d1, b + 1 + m), outs, z3.Select(V1, k)), {"use": ["the first node bisects"]}),
                      ("the vantage point stays", z3.Select(V, b) == z3.Select(V1, b)),
                      ("points stay inside", q(z3.And(0 <= pi1(k - b - 1), pi1(k - b - 1) < m, z3.Select(V, k) == z3.Select(V1, b + 1 + pi1(k - b - 1))), ins, z3.Select(V, k)), {"use": ["the first node bisects"]}),
                      ("points stay outside", q(z3.And(0 <= pi2(k - b - 1 - m), pi2(k - b - 1 - m) < n - 1 - m, z3.Select(V, k) == z3.Select(V1, b + 1 + m + pi2(k - b - 1 - m))), outs, z3.Select(V, k)), {"use": ["the first node bisects"]})]
            U0 = [x[0] for x in parts0]
            parts1 = [("the inside is within the radius", q(dk <= z3.Select(RR, b), ins, z3.Select(V, k)), {"only": True, "use": U0}),
                     ("the outside is not within the radius", q(dk >= z3.Select(RR, b), outs, z3.Select(V, k)), {"only": True, "use": U0}),
                     ("the inside is a tree", TREE(*a1, b + 1, m, d - 1), {"lemmas": lem, "use": ["the first node bisects"]}),
                     ("the outside is a tree", TREE(*a1, b + 1 + m, n - 1 - m, d - 1), {"lemmas": lem, "use": ["the first node bisects"]})]
            parts = parts0 + parts1
        return same + stages + perm_facts_g(p0, p1, pi, inv, [x[0] for x in stages]) + parts + [("tree", TREE(*a1, b, n, d), {"only": True, "use": ["the first node bisects"] + [x[0] for x in parts1]} if parts else {"lemmas": lem})]

    def perm_facts_g(p0, p1, pi, inv, use):
        """goals: skolemised by hand, with an arbitrary position"""
        n = zi(p0.n)
        V0, V1 = leaves(p0)[0], leaves(p1)[0]
        b0, b1 = zi(p0.off), zi(p1.off)
        k = z3.Int("any_position")
        r = z3.And(0 <= k, k < n)
        return [("every point is one of the given points", z3.Implies(r, z3.And(0 <= pi(k), pi(k) < n, z3.Select(V1, b1 + k) == z3.Select(V0, b0 + pi(k)))), {"use": use}),
                ("no point twice", z3.Implies(r, inv(pi(k)) == k), {"use": use}),
                ("no point lost", z3.Implies(r, z3.And(0 <= inv(k), inv(k) < n, pi(inv(k)) == k)), {"use": use})]

    def view(c):
        r = ens(c)
        if c.caller:
            p1 = c.new(0)
            c.st.trace = c.st.trace + (("tree", leaves(p1), zi(p1.off), zi(p1.n), zi(c.a[2])),)
        return r

    for name in ("build_tree", "par_build_tree"):
        path = find(crate, name)
        con = Contract(path, requires=req, ensures=view, modifies={0: [()]}, decreases=lambda c: zi(c.a[2]) + zi(c.old(0).n), setup=setup, props=("C05",))
        con.keeplen = True
        con.forward = True
        con.models = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}
        con.loops = {}
        cs.append(con)
    # ---------------------------------------------------------------- from points
    F = [f["n"] for f in crate.adts["vptree::VPTree"]["variants"][0]["f"]]
    iN, iD, iMx = F.index("nodes"), F.index("dist"), F.index("max_dist")

    def from_setup(eng, st, b):
        args = default_args(eng, st, b, eng.building)
        n = fresh("npoints", I)
        pt = freshfn("point", I, PS)
        st.fact(n >= 0, n <= 2 ** 63 - 1)
        args[0] = It(n, lambda k: pt(zi(k)), 0, (), {})
        eng.points = (n, pt)
        return args

    def from_ens(c):
        t = c.ret
        nodes = t.f[iN]
        n, pt = c.eng.points
        d = zi(c.a[2]) if len(c.a) > 2 else zi(2 ** 64 - 1)
        subs = [x for x in c.st.trace if x[0] == "sub"]
        trees = [x for x in c.st.trace if x[0] == "tree"]
        if len(subs) != 1 or len(trees) != 1:
            raise Unsupported("the tree is not built once")
        _, q0, pi0, inv0 = subs[0]
        _, a, tb, tn, td = trees[0]
        a1 = leaves(nodes)
        if not is0(nodes.off) or not is0(z3.simplify(zi(q0.off))):
            raise Unsupported("nodes with an offset")
        best = [x for x in c.st.trace if x[0] == "best"]
        V0 = leaves(q0)[0]
        # position before building -> position among the given points: the corner is swapped to the end
        cp = fresh("corner", I)
        c.lemma(z3.And(0 <= cp, z3.Or(cp < n, n == 0)))
        k = z3.Int("any_position")
        r = z3.And(0 <= k, k < n)
        V1 = a1[0]
        at0 = lambda i: z3.Select(V0, i)
        P0, I0 = freshfn("given", I, I), freshfn("given_inv", I, I)
        sw = corner_swap(c, n)
        kk = fresh("k", I)
        c.lemma(FA([kk], P0(kk) == sw(kk), [P0(kk)]), FA([kk], I0(kk) == sw(kk), [I0(kk)]))
        pi, inv = (lambda i: P0(pi0(i))), (lambda i: inv0(I0(i)))
        u = ["the points before building"]
        return [("one node per point", zi(nodes.n) == n),
                ("the points before building", FA([kk], z3.Implies(z3.And(0 <= kk, kk < n), z3.And(0 <= P0(kk), P0(kk) < n, at0(kk) == pt(P0(kk)), I0(P0(kk)) == kk, P0(I0(kk)) == kk, 0 <= I0(kk), I0(kk) < n)), [P0(kk)])),
                ("the points before building (inverse)", FA([kk], z3.Implies(z3.And(0 <= kk, kk < n), z3.And(0 <= I0(kk), I0(kk) < n, P0(I0(kk)) == kk)), [I0(kk)])),
                ("every node is one of the given points", z3.Implies(r, z3.And(0 <= pi(k), pi(k) < n, z3.Select(V1, k) == pt(pi(k)))), {"use": u}),
                ("no point twice", z3.Implies(r, inv(pi(k)) == k), {"use": u}),
                ("no point lost", z3.Implies(r, z3.And(0 <= inv(k), inv(k) < n, pi(inv(k)) == k)), {"use": u + ["the points before building (inverse)"]}),
                ("the nodes form a tree", TREE(*a1, z3.IntVal(0), n, d), {"lemmas": [LEMMAS["tree_cong"](a, a1, tb, tn, td)]}),
                ("no limit on distances", t.f[iMx] == c.eng.FMAX())]

    def corner_swap(c, n):
        """the corner and the last point are exchanged; the corner is second or later if there are two points"""
        sw = [x for x in c.st.trace if x[0] == "swap"]
        if len(sw) > 1:
            raise Unsupported("points are exchanged more than once")
        if not sw:
            return lambda i: i
        p, q = zi(sw[0][1]), zi(sw[0][2])
        return lambda i: z3.If(i == p, q, z3.If(i == q, p, i))

    for name in ("from_iter_with_dist_and_depth", "from_par_iter_with_dist_and_depth", "from_iter_with_dist", "from_par_iter_with_dist", "seq_new", "par_new", "new"):
        con = Contract(find(crate, name), ensures=from_ens, setup=from_setup, props=("C05",))
        con.models = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}
        con.forward = True
        con.inline = True
        cs.append(con)
    # ---------------------------------------------------------------- searching
    x, y, z = [z3.Const("p%d" % i, PS) for i in range(3)]
    METRIC = [FA([x, y], D(x, y) >= 0, [D(x, y)]), FA([x, y], D(x, y) == D(y, x), [D(x, y)]),
              FA([x, y, z], D(x, z) <= D(x, y) + D(y, z), [D(x, y), D(y, z)])]

    def cache_ok(m, pt):
        q = fresh("q", PS)
        return FA([q], z3.Implies(z3.Select(m.dom, q), z3.Select(m.lv[0], q) == D(pt, q)), [z3.Select(m.dom, q)])

    def search_setup(eng, st, b):
        args = default_args(eng, st, b, eng.building)
        nodes = args[0].f[iN]
        # the subtree is a part of the nodes of the tree
        n = fresh("subtree_n", I)
        st.fact(n >= 0, zi(args[3]) + n <= zi(nodes.n))
        args[1] = SeqV(nodes.sh, nodes.lv, args[3], n)
        return args

    def search_req(c):
        t, sub_, idx = c.a[0], c.a[1], zi(c.a[3])
        nodes = t.f[iN]
        d = fresh("depth", I)
        return [("the metric axioms", z3.And(METRIC)),
                ("the subtree starts at the given position", z3.And(zi(sub_.off) == idx, idx >= 0, zi(sub_.n) >= 0, idx + zi(sub_.n) <= zi(nodes.n), *[a == b for a, b in zip(sub_.lv, nodes.lv)])),
                ("the subtree is complete", tree_full(leaves(nodes), idx, zi(sub_.n))),
                ("cached distances are right", cache_ok(c.old(5), c.a[2]))]

    def tree_full(a, b, n):
        return TREE(*a, b, n, n)

    def search_lemmas(c, a, b, n):
        m = z3.Select(a[3], b)
        lem = [tree_def(*a, b, n, n)]
        for bb, nn_ in ((b + 1, m), (b + 1 + m, n - 1 - m)):
            lem.append(LEMMAS["tree_deep"](a, bb, nn_, n - 1, nn_))
        return lem

    def search_ens(c):
        t, sub_, pt, idx, ex = c.a[0], c.a[1], c.a[2], zi(c.a[3]), c.a[4]
        nodes = t.f[iN]
        a = leaves(nodes)
        V = a[0]
        n = zi(sub_.n)
        mx = t.f[iMx]
        r = c.ret
        some_ = zi(r.d) == 1
        i, dd = (zi(r.pay[1].f[0].f[0]), r.pay[1].f[0].f[1]) if 1 in r.pay and r.pay[1] is not None else (z3.IntVal(-1), z3.RealVal(0))
        k = fresh("k", I)
        vk = z3.Select(V, k)
        out = lambda q: z3.Or(q == pt, z3.Select(ex.arr, q))
        rng = z3.And(idx <= k, k < idx + n)
        return [("the result is a candidate", z3.Implies(some_, z3.And(idx <= i, i < idx + n, dd == D(pt, z3.Select(V, i)), z3.Not(out(z3.Select(V, i)))))),
                ("no candidate is nearer", FA([k], z3.Implies(z3.And(some_, rng), z3.Or(out(vk), D(pt, vk) >= dd, D(pt, vk) > mx)), [vk])),
                ("no candidate is missed", FA([k], z3.Implies(z3.And(z3.Not(some_), rng), z3.Or(out(vk), D(pt, vk) > mx)), [vk])),
                ("cached distances are right", cache_ok(c.new(5), pt))]

    con = Contract(find(crate, "nearest_in_subtree"), requires=search_req, ensures=search_ens, setup=search_setup, modifies={5: [()]},
                   decreases=lambda c: zi(c.a[1].n), props=("C04",))
    con.models = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}
    con.facts = lambda c: search_lemmas(c, leaves(c.a[0].f[iN]), zi(c.a[3]), zi(c.a[1].n))
    cs.append(con)

    def whole_req(t, pt, cache):
        nodes = t.f[iN]
        return [("the metric axioms", z3.And(METRIC)), ("the nodes form a complete tree", z3.And(zi(nodes.off) == 0, tree_full(leaves(nodes), z3.IntVal(0), zi(nodes.n)))),
                ("cached distances are right", cache_ok(cache, pt))]

    def found(r):
        """some?, point, distance"""
        if 1 in r.pay and r.pay[1] is not None:
            return zi(r.d) == 1, r.pay[1].f[0].f[0], r.pay[1].f[0].f[1]
        return z3.BoolVal(False), z3.IntVal(0), z3.RealVal(0)

    def whole_ens(t, pt, ex, r, cache):
        """what a search finds"""
        nodes, mx = t.f[iN], t.f[iMx]
        V, n = leaves(nodes)[0], zi(nodes.n)
        some_, p, dd = found(r)
        k, w = fresh("k", I), fresh("where", I)
        vk = z3.Select(V, k)
        out = lambda q: z3.Or(q == pt, z3.Select(ex.arr, q))
        rng = z3.And(0 <= k, k < n)
        return [("the result is one of the points", z3.Implies(some_, z3.Exists([w], z3.And(0 <= w, w < n, z3.Select(V, w) == p)))),
                ("with its distance", z3.Implies(some_, dd == D(pt, p))),
                ("within the maximum distance", z3.Implies(some_, dd <= mx)),
                ("neither the point itself nor an excluded one", z3.Implies(some_, z3.Not(out(p)))),
                ("no candidate is nearer", FA([k], z3.Implies(z3.And(some_, rng), z3.Or(out(vk), D(pt, vk) >= dd)), [vk])),
                ("no candidate is missed", FA([k], z3.Implies(z3.And(z3.Not(some_), rng), z3.Or(out(vk), D(pt, vk) > mx)), [vk])),
                ("cached distances are right", cache_ok(cache, pt))]
    con = Contract(find(crate, "nearest_in_impl"), requires=lambda c: whole_req(c.a[0], c.a[1], c.old(3)),
                   ensures=lambda c: whole_ens(c.a[0], c.a[1], c.a[2], c.ret, c.new(3)), modifies={3: [()]}, props=("C04",))
    con.models = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}
    cs.append(con)
    G = [f["n"] for f in crate.adts["vptree::NearestNeighbourIter"]["variants"][0]["f"]]
    gP, gT, gE, gC = [G.index(x) for x in ("pt", "tree", "exclude", "distance_cache")]
    NEXT = "<vptree::NearestNeighbourIter<'_, P, DF> as std::iter::Iterator>::next"
    nx = [p for p in crate.bypath if p.startswith("<vptree::NearestNeighbourIter") and p.endswith("::next")]
    if len(nx) != 1:
        raise Unsupported("next of the neighbour iterator")

    def next_ens(c):
        s0, s1 = c.old(0), c.new(0)
        some_, p, dd = found(c.ret)
        e0, e1 = s0.f[gE].arr, s1.f[gE].arr
        return whole_ens(models.ld(c.eng, c.st, s0.f[gT]), s0.f[gP], s0.f[gE], c.ret, s1.f[gC]) + [
            ("the returned point, and no other, is excluded from now on", e1 == z3.If(some_, z3.Store(e0, p, z3.BoolVal(True)), e0)),
            ("the point stays", s1.f[gP] == s0.f[gP])]
    con = Contract(nx[0], requires=lambda c: whole_req(models.ld(c.eng, c.st, c.old(0).f[gT]), c.old(0).f[gP], c.old(0).f[gC]), ensures=next_ens, modifies={0: [()]}, props=("C04",))
    cs.append(con)

    def start_ens(c):
        r = c.ret
        q = fresh("q", PS)
        return [("neighbours of the given point", r.f[gP] == c.a[1]), ("nothing is excluded", z3.ForAll([q], z3.Not(z3.Select(r.f[gE].arr, q)))),
                ("no distance is cached", z3.ForAll([q], z3.Not(z3.Select(r.f[gC].dom, q))))] + same_tree(c, r)

    def same_tree(c, r):
        t, u = models.ld(c.eng, c.st, r.f[gT]), models.ld(c.eng, c.st, c.a[0])
        return [("among the points of this tree", z3.And(zi(t.f[iN].n) == zi(u.f[iN].n), t.f[iMx] == u.f[iMx], *[a == b for a, b in zip(t.f[iN].lv, u.f[iN].lv)]))]
    starts = [find(crate, "nearest_in")] + [p for p in crate.bypath if "VPTree<usize" in p and p.endswith("::nearest")]
    if len(starts) != 2:
        raise Unsupported("start of a neighbour search")
    for p in starts:
        con = Contract(p, ensures=start_ens, props=("C04",))
        con.inline = True
        cs.append(con)
    return cs


def lemma_tree_deep(a, b, n, d, d2):
    """limits beyond the number of points make no difference"""
    b, n, d, d2 = zi(b), zi(n), zi(d), zi(d2)
    return z3.Implies(z3.And(d >= n, d2 >= n), TREE(*a, b, n, d) == TREE(*a, b, n, d2))


LEMMAS["tree_deep"] = lemma_tree_deep


def prove_tree_deep():
    a = [z3.Const("V", AP), z3.Const("C", AIn), z3.Const("R", AR_), z3.Const("O", AIn)]
    b, n, d, d2 = z3.Ints("b n d d2")
    m = z3.Select(a[3], b)
    defs = [tree_def(*a, b, n, d), tree_def(*a, b, n, d2)]
    ih = [z3.Implies(z3.And(m >= 0, m <= n - 1), lemma_tree_deep(a, b + 1, m, d - 1, d2 - 1)),
          z3.Implies(z3.And(m >= 0, m <= n - 1), lemma_tree_deep(a, b + 1 + m, n - 1 - m, d - 1, d2 - 1))]
    h = [d >= n, d2 >= n]
    return [("tree_deep, empty or one", defs + h + [n <= 1], TREE(*a, b, n, d) == TREE(*a, b, n, d2)),
            ("tree_deep, step", defs + ih + h + [n > 1, TREE(*a, b, n, d)], TREE(*a, b, n, d2)),
            ("tree_deep, step, backwards", defs + ih + h + [n > 1, TREE(*a, b, n, d2)], TREE(*a, b, n, d))]


PROOFS += prove_tree_deep()


def find(crate, name):
    c = [p for p in crate.bypath if p.startswith("vptree::VPTree::<") and p.endswith("::" + name)]
    if len(c) != 1:
        raise Unsupported("function %s of the tree" % name)
    return c[0]
