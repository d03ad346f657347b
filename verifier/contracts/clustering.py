"""cluster.rs: every particle goes to exactly one place."""
from contracts.common import *
from contracts.building import pidval
from contracts.fourvec import fields

CL = "<cluster::DefaultClustering as traits::Clustering>::cluster"
ISO_FN = "cluster::DefaultClustering::is_isolated"
LOOPS = {}
JETS, LEPTONS, KEPT, DROPPED = 0, 1, 2, 3
NAMES = {JETS: "jet", LEPTONS: "lepton", KEPT: "kept"}
ISO = z3.Function("isolated", R, R, R, R, R, B)          # of the momentum of a photon, for the given event and clustering
HADRON = z3.Function("hadron", I, B)                      # particle_id::hadrons::HADRONS
DR = z3.Function("delta_r", *([R] * 8), R)
OFF = {c: z3.Function("first_%s_slot" % n, I, I) for c, n in NAMES.items()}      # where the particles of a group go
SLOT = {c: z3.Function("%s_slot" % n, I, I, I) for c, n in NAMES.items()}
PB, PL = z3.Function("photons_kept", I, I), z3.Function("photons_dressing", I, I)
PSEUDOJET = ("agg", "jetty::PseudoJet", [("z", R)] * 4)
ABS = lambda x: z3.If(x >= 0, x, -x)


def abs_(x):
    x = zi(x)
    return z3.If(x >= 0, x, -x)


def neutrino(a):
    return z3.Or(a == 12, a == 14, a == 16, a == 18)


def category(p, lep, nus):
    """where particles other than photons go"""
    p = zi(p)
    a = abs_(p)
    hard = z3.Or(a <= 5, p == 21, HADRON(a))
    return z3.If(hard, z3.IntVal(JETS), z3.If(z3.And(lep, z3.Or(a == 11, a == 13, p == 22)), z3.IntVal(LEPTONS), z3.If(z3.Or(nus, z3.Not(neutrino(a))), z3.IntVal(KEPT), z3.IntVal(DROPPED))))


# ------------------------------------------------------------------ models of the crates used
def pj(st, v):
    return Agg("jetty::PseudoJet", list(v))


def comps(eng, st, v):
    v = models.ld(eng, st, v)
    if not isinstance(v, Agg) or len(v.f) != 4:
        raise Unsupported("jetty::PseudoJet of unknown form")
    return v.f


def m_into(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if isinstance(v, Agg) and v.ty == "array" and len(v.f) == 4 and all(isz(x) and x.sort() == R for x in v.f) and "jetty::PseudoJet" in str(info.targs):
        return models.one(st, pj(st, v.f))
    return models.MODELS["std::convert::Into::into"](eng, st, a, info)


def comp(i):
    return lambda eng, st, a, info: models.one(st, comps(eng, st, a[0])[i])


def m_pt2(eng, st, a, info):
    c = comps(eng, st, a[0])
    return models.one(st, c[1] * c[1] + c[2] * c[2])


def m_arith(sign):
    def f(eng, st, a, info):
        x, y = comps(eng, st, a[0]), comps(eng, st, a[1])
        eng.assign(st, a[0], pj(st, [p + q if sign > 0 else p - q for p, q in zip(x, y)]))
        return models.one(st, UNIT)
    return f


def m_delta_r(eng, st, a, info):
    return models.one(st, DR(*comps(eng, st, a[0]), *comps(eng, st, a[1])))


def m_contains(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if isinstance(v, Opaque) and v.ty == "HADRONS":
        return models.one(st, HADRON(zi(pidval(models.ld(eng, st, a[1])))))
    raise Unsupported("contains")


def m_distance(kind):
    return lambda eng, st, a, info: models.one(st, Agg("distance " + kind, [a[0]]))


def m_cluster_if(eng, st, a, info):
    """jets of the given objects; those the function accepts are returned"""
    objs, dist, acc = a
    if not isinstance(objs, SeqV) or not isinstance(dist, Agg) or not dist.ty.startswith("distance "):
        raise Unsupported("jet clustering")
    alljets = models.fresh_of(("seq", PSEUDOJET), "jets")
    st.fact(zi(alljets.n) >= 0, zi(alljets.n) < 2 ** 62)
    out = models.fresh_of(("seq", PSEUDOJET), "accepted")
    st.fact(zi(out.n) >= 0, zi(out.n) <= zi(alljets.n))
    tg = z3.Function("where!%d" % nextn(), I, I)
    st.trace = st.trace + (("jetty", objs, dist, acc, alljets, out, tg),)
    k = fresh("k", I)
    sg = z3.Function("which!%d" % nextn(), I, I)
    s = st.copy()
    n0 = len(s.pc)
    base = V._n[0]
    s.fact(k >= 0, k < zi(alljets.n))
    val, fs = models.merged(eng, s, lambda x: eng.apply(x, acc, [sel(alljets, k)]))
    val = zb(val)
    at = lambda e, j: z3.substitute(e, (k, j))
    j = fresh("j", I)
    x = sel(alljets, k)
    y = sel(out, j)
    st.fact(FA([k], z3.Implies(z3.And(0 <= k, k < zi(alljets.n), *fs), z3.Implies(val, z3.And(0 <= tg(k), tg(k) < zi(out.n), sg(tg(k)) == k))), [x.f[0]]),
            FA([j], z3.Implies(z3.And(0 <= j, j < zi(out.n)), z3.And(0 <= sg(j), sg(j) < zi(alljets.n), tg(sg(j)) == j, at(z3.And(val, *fs), sg(j)),
                                                                    *[p == q for p, q in zip(y.f, sel(alljets, sg(j)).f)])), [y.f[0]]))
    return models.one(st, out)


def nextn():
    V._n[0] += 1
    return V._n[0]


import values as V


MOD = {
    "std::convert::Into::into": m_into,
    "jetty::PseudoJet::e": comp(0), "jetty::PseudoJet::px": comp(1), "jetty::PseudoJet::py": comp(2), "jetty::PseudoJet::pz": comp(3),
    "jetty::PseudoJet::pt2": m_pt2, "jetty::PseudoJet::delta_r": m_delta_r,
    "jetty::PseudoJet::new": lambda eng, st, a, info: models.one(st, pj(st, [z3.RealVal(0)] * 4)),
    "<jetty::PseudoJet as std::ops::AddAssign>::add_assign": m_arith(1), "<jetty::PseudoJet as std::ops::SubAssign>::sub_assign": m_arith(-1),
    "particle_id::ParticleID::abs": lambda eng, st, a, info: models.one(st, Agg("particle_id::ParticleID", [abs_(pidval(models.ld(eng, st, a[0])))])),
    "particle_id::ParticleID::id": lambda eng, st, a, info: models.one(st, zi(pidval(models.ld(eng, st, a[0])))),
    "particle_id::ParticleID::is_neutrino": lambda eng, st, a, info: models.one(st, neutrino_model(pidval(models.ld(eng, st, a[0])))),
    "const particle_id::hadrons::HADRONS": lambda eng, st: Opaque("HADRONS"),
    "core::slice::<impl [T]>::contains": m_contains,
    "jetty::anti_kt_f": m_distance("anti-kt"), "jetty::kt_f": m_distance("kt"), "jetty::cambridge_aachen_f": m_distance("Cambridge/Aachen"),
    "<std::vec::Vec<jetty::PseudoJet> as jetty::Cluster>::cluster_if": m_cluster_if,
}


def neutrino_model(p):
    p = zi(p)
    return z3.And(p >= 11, p <= 18, p % 2 == 0)


# ------------------------------------------------------------------ contracts
CONE = [z3.Function("cone_%s" % n, I, I, R, R, R, R, R) for n in ("e", "px", "py", "pz")]
g0 = z3.Int("g0")


def contracts(crate, multi):
    iT, iP = fields(crate)
    DF = [f["n"] for f in crate.adts["cluster::DefaultClustering"]["variants"][0]["f"]]
    dJ, dL, dP, dN = (DF.index(x) for x in ("jet_def", "lepton_def", "photon_def", "include_neutrinos"))
    JF = [f["n"] for f in crate.adts["cluster::JetDefinition"]["variants"][0]["f"]]
    jA, jR, jM = (JF.index(x) for x in ("algorithm", "radius", "min_pt"))
    QF = [f["n"] for f in crate.adts["cluster::PhotonDefinition"]["variants"][0]["f"]]
    qE, qR, qM = (QF.index(x) for x in ("min_e_fraction", "radius", "min_pt"))
    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    bO = BF.index("outgoing_by_pid")
    EF = [f["n"] for f in crate.adts["event::Event"]["variants"][0]["f"]]
    eI, eW, eO = EF.index("id"), EF.index("weights"), EF.index("outgoing_by_pid")
    ALG = [v["n"] for v in crate.adts["cluster::JetAlgorithm"]["variants"]]
    KIND = {"AntiKt": "anti-kt", "Kt": "kt", "CambridgeAachen": "Cambridge/Aachen"}
    is_some = lambda o: zi(o.d) == 1

    def mom(p):
        return [p.f[iP].f[i] for i in range(4)]

    def pid(src, g):
        return zi(pidval(sel(src, g).f[0]))

    def grp(src, g):
        return sel(src, g).f[1]

    def part(src, g, i):
        return sel(grp(src, g), i)

    def iso(p):
        return ISO(p.f[iT], *mom(p))

    def rest(p, src):
        """what is in the cone besides the photon: E^2 - pz^2"""
        n, m = zi(src.n), mom(p)
        e, z = CONE[0](n, 0, *m) - m[0], CONE[3](n, 0, *m) - m[3]
        return e * e - z * z

    class E:
        """the clustering options and the particles, from the entry of the call"""
        def __init__(self, c):
            self.opt = models.ld(c.eng, c.pre_st, c.a[0])
            self.lep, self.nus = is_some(self.opt.f[dL]), zb(self.opt.f[dN])
            self.ev = c.a[1]
            self.out = self.ev.f[eO]

        def cat(self, src, g):
            return category(pid(src, g), self.lep, self.nus)

    def removed(st):
        t = [x for x in st.trace if x[0] == "swap_remove"]
        if len(t) > 1:
            raise Unsupported("groups are removed twice")
        return t[0] if t else None

    def source(e, st):
        """groups still to be treated after the photons, and the number of photons"""
        t = removed(st)
        return (e.out, z3.IntVal(0)) if t is None else (t[3], zi(grp(e.out, t[2]).n))

    def start(st, e, c):
        t = removed(st)
        if t is None or c == JETS:
            return z3.IntVal(0)
        return (PB if c == KEPT else PL)(zi(grp(e.out, t[2]).n))

    def off_def(e, st, src, k):
        """definition of the places, by recursion over the groups"""
        k = zi(k)
        out = []
        g, i = fresh("g", I), fresh("i", I)
        for c in NAMES:
            out += [OFF[c](0) == start(st, e, c), z3.Implies(k >= 0, OFF[c](k + 1) == OFF[c](k) + z3.If(e.cat(src, k) == c, zi(grp(src, k).n), z3.IntVal(0))),
                    FA([g, i], SLOT[c](g, i) == OFF[c](g) + i, [SLOT[c](g, i)])]
        return out

    def ph_def(e, q, k):
        k = zi(k)
        p = sel(q, k)
        kept = z3.Or(iso(p), z3.Not(e.lep))
        return [PB(0) == 0, PL(0) == 0, z3.Implies(k >= 0, z3.And(PB(k + 1) == PB(k) + z3.If(kept, z3.IntVal(1), z3.IntVal(0)), PL(k + 1) == PL(k) + z3.If(kept, z3.IntVal(0), z3.IntVal(1))))]

    # what is at a place of one of the lists
    def jet_is(lst, s, p):
        x = sel(lst, s)
        return z3.And([a == b for a, b in zip(x.f, mom(p))])

    def kept_is(lst, s, id_, p):
        x = sel(lst, s)
        return z3.And(zi(pidval(x.f[0])) == id_, *[a == b for a, b in zip(mom(x.f[1]), mom(p))])

    def lists(L):
        return {c: lst(L, c) for c in NAMES}

    def lst(L, c):
        return L.v("ev").f[bO] if c == KEPT else L.v("clustered_to_" + NAMES[c] + "s")

    def photons_at(e, q, k, bl, ll):
        """the first k photons"""
        i = fresh("i", I)
        p = sel(q, i)
        rng = z3.And(0 <= i, i < k)
        return [("isolated photons are kept", FA([i], z3.Implies(z3.And(rng, iso(p)), z3.And(0 <= PB(i), PB(i) < PB(k), kept_is(bl, PB(i), 83, p))), [PB(i)])),
                ("other photons dress leptons", FA([i], z3.Implies(z3.And(rng, z3.Not(iso(p)), e.lep), z3.And(0 <= PL(i), PL(i) < PL(k), jet_is(ll, PL(i), p))), [PL(i)])),
                ("or are kept as photons", FA([i], z3.Implies(z3.And(rng, z3.Not(iso(p)), z3.Not(e.lep)), z3.And(0 <= PB(i), PB(i) < PB(k), kept_is(bl, PB(i), 22, p))), [PB(i)])),
                ("as many as photons", z3.And(PB(k) + PL(k) == k, PB(k) >= 0, PL(k) >= 0))]

    def photon_inv(L):
        e = E(L.call)
        it = L.it()
        q = it.meta["src"]
        k = zi(it.pos)
        L.lemma(*ph_def(e, q, k - 1), *ph_def(e, q, k))
        ls = {c: lst(L, c) for c in (KEPT, LEPTONS)}
        return [("position", z3.And(k >= 0, k <= zi(it.n))), ("lists", z3.And(zi(ls[KEPT].n) == PB(k), zi(ls[LEPTONS].n) == PL(k)))] + photons_at(e, q, k, ls[KEPT], ls[LEPTONS])

    def routed(e, st, src, k, ls):
        """the particles of the first k groups are where they belong, and nothing else is there"""
        g, i = fresh("g", I), fresh("i", I)
        out = []
        for c, n in NAMES.items():
            s = SLOT[c](g, i)
            rng = z3.And(0 <= g, g < k, 0 <= i, i < zi(grp(src, g).n), e.cat(src, g) == c)
            isat = kept_is(ls[c], s, pid(src, g), part(src, g, i)) if c == KEPT else jet_is(ls[c], s, part(src, g, i))
            out.append(("%s: each particle is in its place" % n, FA([g, i], z3.Implies(rng, z3.And(OFF[c](0) <= s, s < OFF[c](k), isat)), [s])))
        return out

    def group_inv(L):
        e = E(L.call)
        it = outer(L)
        src, nq = source(e, L.st)
        k = zi(it.pos)
        L.lemma(*off_def(e, L.st, src, k - 1), *off_def(e, L.st, src, k))
        ls = lists(L)
        t = removed(L.st)
        out = [("position", z3.And(k >= 0, k <= zi(it.n), zi(it.n) == zi(src.n)))]
        out += [("%s: nothing else is there" % n, z3.And(zi(ls[c].n) == OFF[c](k), OFF[c](k) >= OFF[c](0), OFF[c](0) >= 0)) for c, n in NAMES.items()]
        out += routed(e, L.st, src, k, ls)
        if t is not None:
            q = grp(e.out, t[2])
            out += [("photons: " + l, g) for l, g in photons_at(e, q, nq, ls[KEPT], ls[LEPTONS])]
        return out

    def iters(L):
        c = []
        for d in L.fr.body["debug"]:
            if isinstance(d["v"], list) and len(d["v"]) == 1 and d["n"] == "iter":
                v = L.st.store.get(("L", L.fr.fid, d["v"][0]))
                if isinstance(v, It):
                    c.append(v)
        return c

    def outer(L):
        for it in iters(L):
            o = it.meta.get("owned")
            if isinstance(o, SeqV) and o.sh[0] == "agg" and len(o.sh[2]) == 2:
                return it
        raise Unsupported("loop over the groups")

    def append_inv(which, id_of):
        def inv(L):
            it = L.it()
            q = it.meta["src"]
            k = zi(it.pos)
            now = lst(L, which)
            was = {JETS: lambda: L.v0("clustered_to_jets"), LEPTONS: lambda: L.v0("clustered_to_leptons"), KEPT: lambda: L.v0("ev").f[bO]}[which]()
            s = fresh("s", I)
            x, y = encode(now.sh, sel(now, s), []), encode(was.sh, sel(was, s), [])
            new = lambda i: kept_is(now, i, id_of(L), pm(q, zi(i) - zi(was.n))) if which == KEPT else jet_is(now, i, pm(q, zi(i) - zi(was.n)))
            return [("position", z3.And(k >= 0, k <= zi(it.n))), ("one entry for each", zi(now.n) == zi(was.n) + k),
                    ("the entries before are kept", FAany([s], z3.Implies(z3.And(0 <= s, s < zi(was.n)), z3.And([a == b for a, b in zip(x, y)])), x)),
                    ("with its momentum", FAany([s], z3.Implies(z3.And(zi(was.n) <= s, s < zi(now.n)), new(s)), x))]
        return inv

    def pm(q, i):
        """momentum (as an Agg with field iP) of the i-th object: particles, or jets"""
        x = sel(q, i)
        if x.ty == "jetty::PseudoJet":
            f = [None] * 2
            f[iP] = Agg("array", list(x.f))
            return Agg("four_vector::FourVector", f)
        return x

    def gid(L):
        it = outer(L)
        return pid(it.meta["owned"], zi(it.pos) - 1)
    LOOPS.update({(CL, 0): LoopSpec(photon_inv), (CL, 1): LoopSpec(group_inv), (CL, 2): LoopSpec(append_inv(JETS, None)), (CL, 3): LoopSpec(append_inv(LEPTONS, None)),
                  (CL, 4): LoopSpec(append_inv(KEPT, gid)), (CL, 5): LoopSpec(append_inv(KEPT, lambda L: 81)), (CL, 6): LoopSpec(append_inv(KEPT, lambda L: 82))})

    def m_swap_remove(eng, st, a, info):
        before = eng.load(st, a[0])
        res = models.MODELS["std::vec::Vec::<T, A>::swap_remove"](eng, st, a, info)
        for s, _ in res:
            s.trace = s.trace + (("swap_remove", before, zi(a[1]), eng.load(s, a[0])),)
        return res

    def m_build(eng, st, a, info):
        """by contract (C07): an event that holds what was added"""
        b = a[0]
        eng.stats["contracts_used"].add("event::EventBuilder::build")
        out = models.fresh_of(("seq", ("agg", "tuple", [("agg", "particle_id::ParticleID", [("z", I)]), ("seq", b.f[bO].sh[2][1])])), "built")
        f = [None] * 3
        f[eI], f[eW], f[eO] = 0, models.new_lock(eng, st), out
        st.trace = st.trace + (("built", b, out),)
        return models.one(st, Agg("event::Event", f))

    def req(c):
        e = E(c)
        i, j = fresh("i", I), fresh("j", I)
        return [("groups come in strictly decreasing order of id", FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(e.out.n)), pid(e.out, i) > pid(e.out, j)), [pid(e.out, i), pid(e.out, j)])),
                ("ids", FA([i], z3.Implies(z3.And(0 <= i, i < zi(e.out.n)), pid(e.out, i) > -2 ** 31), [pid(e.out, i)])),
                ("what is in the cone around a photon besides it is not spacelike along the beam", FA([i, j], z3.Implies(z3.And(0 <= i, i < zi(e.out.n), pid(e.out, i) == 22, 0 <= j, j < zi(grp(e.out, i).n)),
                    rest(part(e.out, i, j), e.out) >= 0), [mom(part(e.out, i, j))[0]]))]

    def ens(c):
        e = E(c)
        r = c.ret
        if zi(r.d).eq(zi(1)):
            return [("no error", z3.BoolVal(False))]
        ev = r.pay[0].f[0]
        cl = [t for t in c.st.trace if t[0] == "clustered"]
        bt = [t for t in c.st.trace if t[0] == "built"]
        if len(bt) != 1 or not cl or len(cl) > 2:
            return [("jets are clustered, and one event is built", z3.BoolVal(False))]
        src, nq = source(e, c.st)
        n = zi(src.n)
        c.lemma(*off_def(e, c.st, src, n - 1))
        bl = bt[0][1].f[bO]
        jin, jdef, jout = cl[0][1:4]
        l0, h0, h1 = zi(e.ev.f[eW].id), c.heap0(), c.heap1()
        out = [("the id is kept", zi(ev.f[eI]) == zi(e.ev.f[eI])),
               ("the weights are kept", z3.And(zi(ev.f[eW].id) == l0, *[z3.Select(a, l0) == z3.Select(b, l0) for a, b in zip(h1.lv, h0.lv)])),
               ("the event is the one built", z3.And(zi(ev.f[eO].n) == zi(bt[0][2].n), *[a == b for a, b in zip(ev.f[eO].lv, bt[0][2].lv)])),
               ("jets are clustered by the jet definition", same(jdef, e.opt.f[dJ])),
               ("leptons are dressed exactly if there is a lepton definition", e.lep if len(cl) == 2 else z3.Not(e.lep))]
        ls = {JETS: jin, KEPT: bl}
        if len(cl) == 2:
            ls[LEPTONS] = cl[1][1]
            out.append(("leptons are dressed by the lepton definition", same(cl[1][2], e.opt.f[dL].pay[1].f[0])))
        else:
            ls[LEPTONS] = None
        g, i = fresh("g", I), fresh("i", I)
        t = removed(c.st)
        # each particle of the event
        perm = lambda g: g if t is None else z3.If(g == zi(e.out.n) - 1, t[2], g)
        for cc, nm in NAMES.items():
            if ls[cc] is None:
                continue
            s = SLOT[cc](perm(g), i)
            what = kept_is(ls[cc], s, pid(e.out, g), part(e.out, g, i)) if cc == KEPT else jet_is(ls[cc], s, part(e.out, g, i))
            out.append(("%s: each particle of the event is in its place" % nm, z3.ForAll([g, i], z3.Implies(z3.And(0 <= g, g < zi(e.out.n), pid(e.out, g) != 22, 0 <= i, i < zi(grp(e.out, g).n), e.cat(e.out, g) == cc), z3.And(OFF[cc](0) <= s, s < OFF[cc](n), what)))))
        if t is not None:
            q = grp(e.out, t[2])
            out.append(("photons are treated as such", pid(e.out, t[2]) == 22))
            out += [("photons: " + l, x) for l, x in photons_at(e, q, nq, bl, ls[LEPTONS] if ls[LEPTONS] is not None else jin)]
        else:
            out.append(("no photon is overlooked", FA([g], z3.Implies(z3.And(0 <= g, g < zi(e.out.n)), pid(e.out, g) != 22), [pid(e.out, g)])))
        out.append(("nothing else is clustered into jets", zi(jin.n) == OFF[JETS](n)))
        nj, nl = zi(jout.n), z3.IntVal(0)
        if len(cl) == 2:
            out.append(("nothing else dresses leptons", zi(ls[LEPTONS].n) == OFF[LEPTONS](n)))
            nl = zi(cl[1][3].n)
        n0 = OFF[KEPT](n)
        out.append(("only jets and dressed leptons are added", zi(bl.n) == n0 + nj + nl))
        s = fresh("s", I)
        x = encode(bl.sh, sel(bl, s), [])
        out.append(("each jet", FAany([s], z3.Implies(z3.And(n0 <= s, s < n0 + nj), kept_is(bl, s, 81, pm(jout, s - n0))), x)))
        if len(cl) == 2:
            out.append(("each dressed lepton", FAany([s], z3.Implies(z3.And(n0 + nj <= s, s < n0 + nj + nl), kept_is(bl, s, 82, pm(cl[1][3], s - n0 - nj))), x)))
        return out

    def same(a, b):
        a = a if isinstance(a, Agg) else None
        return z3.And(zi(a.f[jA].d) == zi(b.f[jA].d), a.f[jR] == b.f[jR], a.f[jM] == b.f[jM])

    con = Contract(CL, requires=req, ensures=ens, props=("C15",))
    con.models = dict(MOD)
    con.models.update({"std::vec::Vec::<T, A>::swap_remove": m_swap_remove, "event::EventBuilder::build": m_build})
    con.tyover = {"jetty::PseudoJet": PSEUDOJET}
    out = [con]

    # ---- cluster()
    def c_ret(c):
        o = models.fresh_of(("seq", PSEUDOJET), "jets")
        c.st.fact(zi(o.n) >= 0, zi(o.n) < 2 ** 62)
        c.st.trace = c.st.trace + (("clustered", c.a[0], models.ld(c.eng, c.st, c.a[1]), o),)
        return [(c.st, o)]

    def c_ens(c):
        d = models.ld(c.eng, c.st, c.a[1])
        r = c.ret
        k = fresh("k", I)
        hard = lambda j: j.f[1] * j.f[1] + j.f[2] * j.f[2] > d.f[jM] * d.f[jM]
        x = sel(r, k)
        res = [("only jets above the minimum transverse momentum", FA([k], z3.Implies(z3.And(0 <= k, k < zi(r.n)), hard(x)), [x.f[0]]))]
        if c.caller:
            return res
        js = [t for t in c.st.trace if t[0] == "jetty"]
        if len(js) != 1:
            return res + [("one clustering", z3.BoolVal(False))]
        _, objs, dist, acc, alljets, o, tg = js[0]
        a = [i for i, n in enumerate(ALG) if KIND.get(n) == dist.ty[len("distance "):]]
        y = sel(alljets, k)
        return res + [("of the given objects", z3.And(zi(objs.n) == zi(c.a[0].n), *[p == q for p, q in zip(objs.lv, c.a[0].lv)])),
                      ("by the given algorithm", zi(d.f[jA].d) == a[0]), ("with the given radius", dist.f[0] == d.f[jR]),
                      ("all of them", FA([k], z3.Implies(z3.And(0 <= k, k < zi(alljets.n), hard(y)), z3.And(0 <= tg(k), tg(k) < zi(r.n), *[p == q for p, q in zip(sel(r, tg(k)).f, y.f)])), [y.f[0]]))]
    con = Contract("cluster::cluster", ensures=c_ens, returns=c_ret, props=("C15",))
    con.models = MOD
    con.tyover = {"jetty::PseudoJet": PSEUDOJET}
    out.append(con)

    # ---- no clustering
    def no_ens(c):
        r, a = c.ret, c.a[1]
        if zi(r.d).eq(zi(1)):
            return [("no error", z3.BoolVal(False))]
        e = r.pay[0].f[0]
        return [("the event as it is", z3.And(zi(e.f[eI]) == zi(a.f[eI]), zi(e.f[eW].id) == zi(a.f[eW].id), zi(e.f[eO].n) == zi(a.f[eO].n), *[x == y for x, y in zip(e.f[eO].lv, a.f[eO].lv)]))]
    out.append(Contract("<cluster::NoClustering as traits::Clustering>::cluster", ensures=no_ens, props=("C15",)))

    # ---- isolation
    def counted(src, g):
        """neutrinos and muons are not part of the cone"""
        a = abs_(pid(src, g))
        return z3.And(z3.Not(neutrino(a)), a != 13)

    class F:
        def __init__(self, c):
            self.opt = models.ld(c.eng, c.pre_st, c.a[0])
            self.p = models.ld(c.eng, c.pre_st, c.a[1])
            self.src = models.ld(c.eng, c.pre_st, c.a[2])
            self.has = is_some(self.opt.f[dP])
            self.d = self.opt.f[dP].pay[1].f[0]

        def inside(self, g, i):
            return DR(*mom(part(self.src, g, i)), *mom(self.p)) < self.d.f[qR]

    def cone(f, c, g, i):
        return CONE[c](g, i, *mom(f.p))

    def cone_def(f, g, i):
        """sums over the particles inside the cone: groups before g, and the first i of group g"""
        g, i = zi(g), zi(i)
        q = mom(part(f.src, g, i))
        out = []
        for c in range(4):
            out += [cone(f, c, 0, 0) == 0, z3.Implies(i >= 0, cone(f, c, g, i + 1) == cone(f, c, g, i) + z3.If(f.inside(g, i), q[c], z3.RealVal(0))),
                    z3.Implies(g >= 0, cone(f, c, g + 1, 0) == cone(f, c, g, z3.If(counted(f.src, g), zi(grp(f.src, g).n), z3.IntVal(0))))]
        return out

    def iso_ens(c):
        f = F(c)
        r = zb(c.ret)
        if c.caller:
            # the caller calls this for one event and one set of options only: the value is a function of the photon
            e = E(c.eng.cur_ctx)
            if not (f.src.n is e.out.n or zi(f.src.n).eq(zi(e.out.n))) or not all(x.eq(y) for x, y in zip(f.src.lv, e.out.lv)) or f.opt is not e.opt:
                raise Unsupported("isolation in another event")
            return [("isolated", r == iso(f.p))]
        hard = f.p.f[iT] >= f.d.f[qM]
        return [("nothing is isolated without a photon definition", z3.Implies(z3.Not(f.has), z3.Not(r))),
                ("soft photons are not isolated", z3.Implies(z3.And(f.has, z3.Not(hard)), z3.Not(r))),
                ("hard photons are isolated exactly if they carry enough of the energy in the cone", z3.Implies(z3.And(f.has, hard), r == (f.p.f[iT] > f.d.f[qE] * models.SQRT(rest(f.p, f.src)))))]

    def iso_out(L):
        f = F(L.call)
        it = [x for x in iters(L)][0]
        k = zi(it.pos)
        L.lemma(*cone_def(f, k - 1, 0), *cone_def(f, k, 0))
        return [("position", z3.And(k >= 0, k <= zi(it.n)))] + [("cone, component %d" % c, x == cone(f, c, k, 0)) for c, x in enumerate(L.v("cone_mom").f)]

    def iso_in(L):
        f = F(L.call)
        its = iters(L)
        g, k = zi(its[0].pos) - 1, zi(its[-1].pos)
        L.lemma(*cone_def(f, g, k - 1), *cone_def(f, g, k))
        return [("position", z3.And(k >= 0, k <= zi(its[-1].n)))] + [("cone, component %d" % c, x == cone(f, c, g, k)) for c, x in enumerate(L.v("cone_mom").f)]
    LOOPS.update({(ISO_FN, 0): LoopSpec(iso_out), (ISO_FN, 1): LoopSpec(iso_in)})
    con = Contract(ISO_FN, requires=lambda c: [("what is in the cone besides the photon is not spacelike along the beam", rest(F(c).p, F(c).src) >= 0),
                                               ("ids", FA([g0], z3.Implies(z3.And(0 <= g0, g0 < zi(F(c).src.n)), pid(F(c).src, g0) > -2 ** 31), [pid(F(c).src, g0)]))],
                   ensures=iso_ens, props=("C15",))
    con.models = MOD
    con.tyover = {"jetty::PseudoJet": PSEUDOJET}
    out.append(con)
    return out
