"""event.rs: weights of an event; building events."""
from contracts.common import *
from contracts.lemmas import LEMMAS, PROOFS
from contracts.cell import heaplens, forall_held


def contracts(crate, multi):
    cs = []
    EV = "event::Event::"

    def lk(c, st=None):
        return zi(models.ld(c.eng, c.st, c.a[0]).f[EV_LOCK].id)

    def free(c):
        return [("no lock is held", forall_held(c.held0())), ("free locks hold their weights", heaplens(c.eng, c.heap0()))] + (
            [("the event has weights", c.eng.nw(lk(c)) >= 1)] if multi else [])

    def rescale_ens(c):
        l = lk(c)
        h0, h1 = c.heap0(), c.heap1()
        w0, w1 = sel(h0, l), sel(h1, l)
        x = fresh("x", I)
        s = c.a[1]
        return [("number of weights kept", wn(w1) == wn(w0)),
                ("every weight is rescaled", forall(wn(w0), lambda k: wk(w1, k) == wk(w0, k) * s, lambda k: wpat(w1, k))),
                ("no other event is touched", FA([x], z3.Implies(x != l, z3.And([z3.Select(a, x) == z3.Select(b, x) for a, b in zip(h1.lv, h0.lv)])), [z3.Select(h1.lv[0], x)])),
                ("no lock stays held", forall_held(c.held1()))]

    con = Contract(EV + "rescale_weights", requires=free, ensures=rescale_ens, modifies={}, props=("C09",))
    con.inline = True
    cs.append(con)
    con = Contract(EV + "weight", requires=free, ensures=lambda c: [("the first weight", c.ret == wk(sel(c.heap0(), lk(c)), 0))], props=("C07", "C09"))
    con.inline = True
    cs.append(con)
    con = Contract(EV + "n_weights", requires=free, ensures=lambda c: [("the number of weights", zi(c.ret) == wn(sel(c.heap0(), lk(c))))], props=("C07",))
    con.inline = True
    cs.append(con)
    return cs


def wpat(v, k):
    x = v.f[0]
    return z3.Select(x.lv[0], zi(add(x.off, k))) if isinstance(x, SeqV) else z3.Select(z3.K(I, 0), k)
