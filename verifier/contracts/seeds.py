"""seeds.rs: selection of seeds."""
from contracts.common import *

SELF, EVENTS = 0, 1


def variants(crate, adt):
    return {v["n"]: i for i, v in enumerate(crate.adts[adt]["variants"])}


def weight(heap, ev, i):
    """central weight of event i"""
    return wk(sel(heap, lock_of(ev, i)), 0)


def at(it, k):
    """element k of a plain iterator"""
    if it.stages:
        raise Unsupported("result is not a plain list")
    return it.at(k)


def contracts(crate, multi):
    V = variants(crate, "seeds::Strategy")

    def req(c):
        ev = c.a[EVENTS]
        h = c.heap0()
        from contracts.cell import heaplens, forall_held
        return [("free locks hold their weights", heaplens(c.eng, h)), ("every event has a weight", has_weight(c, ev)), ("no lock is held", forall_held(c.held0()))]

    def has_weight(c, ev):
        return forall(ev.n, lambda i: c.eng.nw(lock_of(ev, i)) >= 1, lambda i: lock_of(ev, i))

    def ens(c):
        ev, it = c.a[EVENTS], c.ret
        h = c.heap0()
        n = zi(it.n)
        N = zi(ev.n)
        strat = c.a[SELF].f[0].d
        r = lambda k: at(it, k)
        w = lambda e: weight(h, ev, e)
        sels = [t for t in c.st.trace if t[0] == "sel"]
        perms = [t for t in c.st.trace if t[0] == "perm"]
        if len(sels) != 1 or len(perms) > 1:
            raise Unsupported("seeds are not selected by one filter and at most one sort")
        tau = sels[0][2]
        pos = (lambda e: perms[0][2](tau(e))) if perms else tau
        i, j, e = fresh("i", I), fresh("j", I), fresh("e", I)
        ij = z3.And(0 <= i, i < j, j < n)
        pat = lambda x, y: [z3.MultiPattern(r(x), r(y))]

        def order(name, g):
            return z3.Implies(zi(strat) == V[name], z3.ForAll([i, j], z3.Implies(ij, g), patterns=pat(i, j)))
        return [("starts at the first seed", zi(it.pos) == 0),
                ("every seed is an event of negative weight", forall(n, lambda k: z3.And(0 <= r(k), r(k) < N, w(r(k)) < 0), lambda k: r(k))),
                ("no event is a seed twice", z3.ForAll([i, j], z3.Implies(ij, r(i) != r(j)), patterns=pat(i, j))),
                ("every event of negative weight is a seed", z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < N, w(e) < 0), z3.And(0 <= pos(e), pos(e) < n, r(pos(e)) == e)), patterns=[pos(e)])),
                ("least negative: in order of decreasing weight", order("LeastNegative", w(r(i)) >= w(r(j)))),
                ("most negative: in order of increasing weight", order("MostNegative", w(r(i)) <= w(r(j)))),
                ("otherwise: in the order of the events", order("Next", r(i) < r(j))),
                ("weights are only read", z3.And([a == b for a, b in zip(c.heap0().lv, c.heap1().lv)]))]

    return [Contract("<seeds::StrategicSelector as seeds::SelectSeeds>::select_seeds", requires=req, ensures=ens, props=("C08",))]
