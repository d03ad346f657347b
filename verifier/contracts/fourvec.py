"""four_vector.rs: the cached transverse momentum is right, and operations are componentwise."""
from contracts.common import *
from models import SQRT

FV = "four_vector::FourVector"


def fields(crate):
    F = [f["n"] for f in crate.adts[FV]["variants"][0]["f"]]
    return F.index("pt"), F.index("p")


def contracts(crate, multi):
    iT, iP = fields(crate)
    comp = lambda v, k: v.f[iP].f[k]

    def pt_ok(v):
        x, y = comp(v, 1), comp(v, 2)
        t = v.f[iT]
        return z3.And(t >= 0, t * t == x * x + y * y)

    def consistent(lab, v):
        return [(lab + "transverse momentum", pt_ok(v))]
    cs = []

    def add(path, ens, req=None, mod=None, args=None):
        con = Contract(path, requires=req, ensures=ens, modifies=mod, props=("C19",))
        con.inline = True
        cs.append(con)

    def comps(v, f):
        return [("component %d" % k, comp(v, k) == f(k)) for k in range(4)]
    add(FV + "::update_pt", lambda c: consistent("", c.new(0)) + comps(c.new(0), lambda k: comp(c.old(0), k)), mod={0: [()]})
    add(FV + "::new", lambda c: consistent("", c.ret) + comps(c.ret, lambda k: z3.RealVal(0)))
    add(FV + "::pt", lambda c: [("the cached transverse momentum", c.ret == models.ld(c.eng, c.st, c.a[0]).f[iT])])
    frm = [p for p in crate.bypath if p.startswith("<four_vector::FourVector as std::convert::From<[") and p.endswith("::from")]
    for p in frm:
        add(p, lambda c: consistent("", c.ret) + comps(c.ret, lambda k: c.a[0].f[k]))
    for name, op in (("Add", 1), ("Sub", -1)):
        low = name.lower()
        add("<%s as std::ops::%sAssign>::%s_assign" % (FV, name, low),
            lambda c, op=op: consistent("", c.new(0)) + comps(c.new(0), lambda k: comp(c.old(0), k) + op * comp(c.a[1], k)), mod={0: [()]})
        add("<%s as std::ops::%s>::%s" % (FV, name, low),
            lambda c, op=op: consistent("", c.ret) + comps(c.ret, lambda k: comp(c.a[0], k) + op * comp(c.a[1], k)))

    def sq(v, r):
        s = z3.RealVal(0)
        for k in r:
            s = s + comp(v, k) * comp(v, k)
        return s
    for nm, r in (("euclid", range(4)), ("spatial", range(1, 4))):
        add("%s::%s_norm_sq" % (FV, nm), lambda c, r=r: [("sum of squares", c.ret == sq(models.ld(c.eng, c.st, c.a[0]), r))])
        add("%s::%s_norm" % (FV, nm), lambda c, r=r: [("square root of the sum of squares", z3.And(c.ret >= 0, c.ret * c.ret == sq(models.ld(c.eng, c.st, c.a[0]), r)))])
    idx = "<%s as std::ops::Index<usize>>::index" % FV
    add(idx, lambda c: [("the component at that position", z3.And([z3.Implies(zi(c.a[1]) == k, models.ld(c.eng, c.st, c.ret) == comp(models.ld(c.eng, c.st, c.a[0]), k)) for k in range(4)]))],
        req=lambda c: [("position", z3.And(0 <= zi(c.a[1]), zi(c.a[1]) < 4))])
    return cs
