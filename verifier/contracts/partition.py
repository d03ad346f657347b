"""partition.rs and the conversion of a tree into a partition."""
from contracts.common import *
from contracts.lemmas import LEMMAS, PROOFS
from contracts.vptree import D, distance_model

MOD = {"distance::Distance::distance": distance_model, "traits::Distance::distance": distance_model}
LEAF = z3.Function("LEAF", z3.ArraySort(I, I), z3.ArraySort(I, R), I, I, I, I)


def contracts(crate, multi):
    cs = []
    F = [f["n"] for f in crate.adts["partition::VPTreePartition"]["variants"][0]["f"]]
    fV = F.index("vp")
    G = [f["n"] for f in crate.adts["partition::VPBisection"]["variants"][0]["f"]]
    gP, gR = G.index("pt"), G.index("r")

    def leaf_def(vp, n, x, j):
        """descent from position j: inside (2j+1) exactly if the distance to the vantage point is at most the radius"""
        P_, R_ = vp.lv[gP], vp.lv[gR]
        j = zi(j)
        down = z3.If(D(z3.Select(P_, j), x) <= z3.Select(R_, j), 2 * j + 1, 2 * j + 2)
        return LEAF(P_, R_, n, x, j) == z3.If(j >= n, j, LEAF(P_, R_, n, x, down))

    def env(c):
        vp = models.ld(c.eng, c.st, c.a[0]).f[fV]
        return vp, zi(vp.n), models.ld(c.eng, c.st, c.a[1])

    def region_ens(c):
        vp, n, x = env(c)
        lf = LEAF(vp.lv[gP], vp.lv[gR], n, x, z3.IntVal(0))
        return [("the region the tree dictates", zi(c.ret) == lf - n), ("one of the regions", z3.And(0 <= zi(c.ret), zi(c.ret) <= n))]

    def inv(L):
        c = L.call
        vp, n, x = env(c)
        i = zi(L.v("idx"))
        L.lemma(leaf_def(vp, n, x, i))
        P_, R_ = vp.lv[gP], vp.lv[gR]
        return [("the descent continues", LEAF(P_, R_, n, x, i) == LEAF(P_, R_, n, x, z3.IntVal(0))), ("within the tree", z3.And(0 <= i, i <= 2 * n))]
    p = "partition::VPTreePartition::<P, DF>::"
    con = Contract(p + "region", ensures=region_ens, loops={0: LoopSpec(inv, lambda L: zi(env(L.call)[1]) * 2 + 3 - zi(L.v("idx")))}, props=("C10",))
    con.models = MOD
    cs.append(con)
    con = Contract(p + "len", ensures=lambda c: [("one region more than bisections", zi(c.ret) == zi(models.ld(c.eng, c.st, c.a[0]).f[fV].n) + 1)], props=("C10",))
    con.inline = True
    cs.append(con)
    con = Contract(p + "into_tree", ensures=lambda c: [("the bisections", z3.And(zi(c.ret.n) == zi(c.a[0].f[fV].n), *[a == b for a, b in zip(c.ret.lv, c.a[0].f[fV].lv)]))], props=("C10",))
    con.inline = True
    cs.append(con)
    return cs + conversion(crate)


POS, SIZE = z3.Function("heap_pos", I, I), z3.Function("heap_size", I, I)
# no meaning: its occurrences tell the solver for which nodes it needs the facts about the tree
TRIG = z3.Function("look_at", I, I)
M_, DEPTH = z3.Int("nbisections"), z3.Int("depth")


def complete(a, n):
    """the nodes of the tree, numbered breadth first, inside child before outside child: the first M have children"""
    V, C, RR, O = a
    k = z3.Int("k")
    p = POS(k)
    return [("a power of two regions", z3.And(M_ >= 0, M_ + 1 == models.POW2(DEPTH), DEPTH >= 0, models.LOG2(M_ + 1) == DEPTH)),
            ("no tree without points", z3.Implies(n == 0, M_ == 0)),
            ("the root", z3.Implies(n > 0, z3.And(POS(0) == 0, SIZE(0) == n))),
            ("inner nodes", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < M_, TRIG(k) == 0), z3.And(
                z3.Select(C, p) == 1, POS(2 * k + 1) == p + 1, SIZE(2 * k + 1) == z3.Select(O, p), POS(2 * k + 2) == p + 1 + z3.Select(O, p),
                SIZE(2 * k + 2) == SIZE(k) - 1 - z3.Select(O, p), z3.Select(O, p) >= 1, SIZE(k) - 1 - z3.Select(O, p) >= 1)), patterns=[TRIG(k)])),
            ("leaves", z3.ForAll([k], z3.Implies(z3.And(n > 0, M_ <= k, k <= 2 * M_, TRIG(k) == 0), z3.And(z3.Select(C, p) == 0, SIZE(k) >= 1)), patterns=[TRIG(k)]))]


def conversion(crate):
    from contracts.vptree import leaves
    c = [p for p in crate.bypath if "From<vptree::VPTree<P, DF>> for partition::VPTreePartition" in p and p.endswith(">::from")]
    if len(c) != 1:
        raise Unsupported("conversion of a tree into a partition")
    T = [f["n"] for f in crate.adts["vptree::VPTree"]["variants"][0]["f"]]
    iN = T.index("nodes")
    F = [f["n"] for f in crate.adts["partition::VPTreePartition"]["variants"][0]["f"]]
    fV = F.index("vp")
    G = [f["n"] for f in crate.adts["partition::VPBisection"]["variants"][0]["f"]]
    gP, gR = G.index("pt"), G.index("r")

    def req(c):
        nodes = c.a[0].f[iN]
        return [("nodes", zi(nodes.off) == 0)] + complete(leaves(nodes), zi(nodes.n))

    def content(vp, n, a):
        return forall(n, lambda k: z3.And(z3.Select(vp.lv[gP], k) == z3.Select(a[0], POS(k)), z3.Select(vp.lv[gR], k) == z3.Select(a[2], POS(k))), lambda k: z3.Select(vp.lv[gP], k))

    def ens(c):
        vp, a = c.ret.f[fV], leaves(c.a[0].f[iN])
        return [("as many bisections as inner nodes", zi(vp.n) == M_), ("the bisections of the tree in breadth-first order", content(vp, M_, a))]

    def inv(L):
        nodes0 = L.call.a[0].f[iN]
        a0 = leaves(nodes0)
        nodes, vp, q = L.v("nodes"), L.v("vp"), L.v("node_queue")
        a = leaves(nodes)
        m, nq, off = zi(vp.n), zi(q.n), zi(q.off)
        t, b = fresh("popped", I), fresh("heap_base", I)
        L.lemma(t == z3.If(m < M_, m, 2 * M_ + 1 - nq), b == t - off, TRIG(t) == 0, TRIG(t - 1) == 0)
        Q = q.lv[0]
        i, j, x = fresh("i", I), fresh("j", I), fresh("x", I)
        within = lambda j: z3.And(off <= j, j < off + nq, z3.Select(Q, j) == POS(b + j))
        lo, hi = lambda j: POS(b + j), lambda j: POS(b + j) + SIZE(b + j)
        return [("bisections so far", z3.And(0 <= m, m <= M_, t >= m, nq == 2 * m + 1 - t, nq >= 0)),
                ("content so far", content(vp, m, a0)), ("same number of nodes", zi(nodes.n) == zi(nodes0.n)),
                ("the queue holds the next nodes", FA([j], z3.Implies(z3.And(off <= j, j < off + nq), z3.Select(Q, j) == POS(b + j)), [z3.Select(Q, j)])),
                ("the subtrees in the queue are within the nodes", FA([j], z3.Implies(within(j), z3.And(SIZE(b + j) >= 1, 0 <= lo(j), hi(j) <= zi(nodes0.n))), [z3.Select(Q, j)])),
                ("the subtrees in the queue are disjoint", FA([i, j], z3.Implies(z3.And(within(i), within(j), i < j), z3.Or(hi(i) <= lo(j), hi(j) <= lo(i))), [z3.Select(Q, i), z3.Select(Q, j)])),
                ("the subtrees in the queue are untouched", z3.And([
                    FA([j, x], z3.Implies(z3.And(within(j), lo(j) <= x, x < hi(j)), z3.Select(u, x) == z3.Select(v, x)), [z3.Select(Q, j), z3.Select(u, x)]) for u, v in zip(a, a0)]))]

    def measure(L):
        m, nq = zi(L.v("vp").n), zi(L.v("node_queue").n)
        return 2 * M_ + 1 - z3.If(m < M_, m, 2 * M_ + 1 - nq)
    con = Contract(c[0], requires=req, ensures=ens, loops={0: LoopSpec(inv, measure)}, props=("C10",))
    return [con]


def prove_complete():
    """enough points make a tree of limited depth complete: a node that is j layers above the regions and has at least
    2^(j+1)-1 points is bisected, and both sides have at least 2^j-1 points one layer below (2^(j+1)-1 is MINSZ(j))"""
    from contracts.vptree import TREE, tree_def, AP, AIn, AR_
    a = [z3.Const("V", AP), z3.Const("C", AIn), z3.Const("R", AR_), z3.Const("O", AIn)]
    b, s, j = z3.Ints("b s j")
    MINSZ = z3.Function("MINSZ", I, I)
    m = z3.Select(a[3], b)
    h = [tree_def(*a, b, s, j), TREE(*a, b, s, j), s >= MINSZ(j), MINSZ(j) >= 1, z3.Implies(j >= 1, z3.And(MINSZ(j) == 2 * MINSZ(j - 1) + 1, MINSZ(j - 1) >= 1))]
    half = z3.And(TREE(*a, b + 1, m, j - 1), m >= MINSZ(j - 1), TREE(*a, b + 1 + m, s - 1 - m, j - 1), s - 1 - m >= MINSZ(j - 1))
    return [("complete tree: a node above the regions is bisected", h + [j >= 1], z3.And(z3.Select(a[1], b) == 1, half)),
            ("complete tree: a region is not bisected", h + [j == 0], z3.Select(a[1], b) == 0)]


PROOFS += prove_complete()
