"""event.rs: arithmetic of weights."""
from contracts.common import *

W = "event::Weights::"


def contracts(crate, multi):
    cs = []
    cs.append(Contract("<event::Weights as std::ops::AddAssign<&event::Weights>>::add_assign",
        requires=lambda c: [("equally many weights", wn(c.old(0)) == wn(c.old(1)))],
        modifies={0: [()]},
        ensures=lambda c: [("number of weights kept", wn(c.new(0)) == wn(c.old(0))),
                           ("sum of weights", forall(wn(c.old(0)), lambda k: wk(c.new(0), k) == wk(c.old(0), k) + wk(c.old(1), k), lambda k: wpat(c.new(0), k)))],
        props=("C01", "C02")))
    cs.append(Contract(W + "copy_from",
        requires=lambda c: [("equally many weights", wn(c.old(0)) == wn(c.old(1)))],
        modifies={0: [()]},
        ensures=lambda c: [("number of weights kept", wn(c.new(0)) == wn(c.old(0))),
                           ("copied", forall(wn(c.old(0)), lambda k: wk(c.new(0), k) == wk(c.old(1), k), lambda k: wpat(c.new(0), k)))],
        props=("C01", "C02")))
    cs.append(Contract(W + "new_single",
        ensures=lambda c: [("one weight", wn(c.ret) == 1), ("given weight", wk(c.ret, 0) == c.a[0])], props=("C01", "C02")))
    cs.append(Contract(W + "central",
        requires=lambda c: [("has a weight", wn(c.old(0)) >= 1)],
        ensures=lambda c: [("first weight", c.ret == wk(c.old(0), 0))], props=("C01", "C03", "C08", "C09")))
    cs.append(Contract(W + "len", ensures=lambda c: [("number of weights", zi(c.ret) == wn(c.old(0)))], props=("C01",)))
    return cs


def wpat(v, k):
    x = v.f[0]
    return z3.Select(x.lv[0], zi(add(x.off, k))) if isinstance(x, SeqV) else z3.Select(z3.K(I, 0), k)
