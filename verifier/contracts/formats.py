"""hepmc2.rs, lhef.rs, stripper_xml.rs: records keep everything but their weights, and are read as they are written."""
import types

from contracts.common import *
from contracts.text import *
from contracts import fourvec
from contracts.building import pidval

NSUB = F("number_of_records_in_header", AI, I, I)
RECNAME = F("name_of_event_record", AI, I, I)
H_OK, H_AT = F("hepmc_entries_before_weights", AI, I, I, B), F("hepmc_number_of_weights_at", AI, I, I, I)


def hdef(arr, p, e):
    """ten entries, a number of random states and the states come before the number of weights"""
    w1 = AFTER["any"](arr, p + 1, e, 10)
    ok, end, val = ENT["u32"]
    n = val(arr, w1, e)
    w2 = end(arr, w1, e)
    return z3.And(H_OK(arr, p, e) == z3.And(rep_ok("any", arr, S(p + 1), e, 10), ok(arr, w1, e), rep_ok("any", arr, w2, e, n)),
                  H_AT(arr, p, e) == AFTER["any"](arr, w2, e, n))


def starts(arr, p, e, ch):
    return z3.And(p < e, z3.Select(arr, p) == ord(ch))


def okv(r):
    return r.pay[0].f[0] if r.pay.get(0) is not None else None


def isok(r):
    return zi(r.d) == 0


def chainpos(arr, p, e, kinds):
    """[(position, kind)] of consecutive entries, end position, all there"""
    out, ok = [], []
    for k in kinds:
        out.append(p)
        ok.append(ENT[k][0](arr, p, e))
        p = ENT[k][1](arr, p, e)
    return out, p, z3.And(ok)


def chaindefs(arr, p, e, kinds):
    pos, _, _ = chainpos(arr, p, e, kinds)
    return [entdef(k, arr, q, e) for q, k in zip(pos, kinds)]


def contracts(crate, multi):
    return build(crate, multi)[0]


def build(crate, multi):
    """contracts, and the vocabulary they share with those of whole records"""
    cs = []
    P13, P14, P = ("C13",), ("C14",), ("C13", "C14")
    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    bW, bO = BF.index("weights"), BF.index("outgoing_by_pid")
    iT, iP = fourvec.fields(crate)

    # formats compiled in
    FORMATS = {m: pr for m, pr in (("hepmc2", P13), ("lhef", P14), ("stripper_xml", P14)) if m + "::FileReader" in crate.adts}

    def add(path, props, facts=None, mods=None, **kw):
        if path.split("::")[0].strip("<") in ("lhef", "stripper_xml") and path.split("::")[0].strip("<") not in FORMATS:
            return Contract(path)
        con = text(Contract(path, props=props, **kw), **(mods or {}))
        if facts:
            con.facts = facts
        cs.append(con)
        return con

    def txt(c, i=0):
        return parts(models.ld(c.eng, c.st, c.a[i]))

    def atext(i=0):
        def req(c):
            _, p, e = txt(c, i)
            return [("a text", z3.And(0 <= p, p <= e, e < 2 ** 60))]
        return req

    # ------------------------------------------------------------ the weight entry is replaced and nothing else
    def ucw_req(c):
        arr, p, e = parts(c.old(0))
        return [("position within the record", z3.And(0 <= p, p <= e, e < 2 ** 60, 0 <= zi(c.a[1]), zi(c.a[1]) <= e - p))]

    def num(v):
        while isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
        return v

    def ucw_ens(c):
        old, new = c.old(0), c.new(0)
        arr, p, e = parts(old)
        q = S(p + zi(c.a[1]))
        w = num(c.a[2])
        t = SeqV(("z", I), [DTXT(w)], 0, DLEN(w))
        s = isok(c.ret)
        out = [("fails exactly if there is no entry", s == ANY_OK(arr, q, e))]
        out += [("exactly the entry is replaced by the weight: " + l, z3.Implies(s, g)) for l, g in spliced(new, old, S(ANY_AT(arr, q, e) - p), S(ANY_END(arr, q, e) - p), t)]
        out.append(("a record without the entry is unchanged", z3.Implies(z3.Not(s), z3.And(new.lv[0] == old.lv[0], zi(new.n) == zi(old.n), zi(new.off) == zi(old.off)))))
        return out

    def ucw_ret(c):
        arr, p, e = parts(c.old(0))
        q = S(p + zi(c.a[1]))
        c.st.fact(anydef(arr, q, e), numtext(num(c.a[2])))
        return [(s, models.ok(UNIT) if b else models.err(Opaque("ReadError"))) for s, b in models.fork(c.eng, c.st, ANY_OK(arr, q, e))]
    add("hepmc2::update_central_weight", P, facts=lambda c: [anydef(parts(c.old(0))[0], S(parts(c.old(0))[1] + zi(c.a[1])), parts(c.old(0))[2])],
        requires=ucw_req, ensures=ucw_ens, returns=ucw_ret, modifies={0: [()]})

    # ------------------------------------------------------------ HepMC
    def nwe_req(c):
        arr, p, e = txt(c)
        return [("an event record", z3.And(0 <= p, e < 2 ** 60, starts(arr, p, e, "E")))]

    def nwe_ens(c):
        arr, p, e = txt(c)
        r = c.ret
        out = [("succeeds exactly if the entries are there", isok(r) == H_OK(arr, p, e))]
        if okv(r) is not None:
            a2, p2, e2 = parts(okv(r).f[0])
            out.append(("the rest starts at the number of weights", z3.Implies(isok(r), z3.And(a2 == arr, p2 == H_AT(arr, p, e), e2 == e, p < p2, p2 <= e))))
        return out

    def nwe_ret(c):
        arr, p, e = txt(c)
        q = H_AT(arr, p, e)
        return result([(s, (q, view(arr, p, q)) if b else None) for s, b in models.fork(c.eng, c.st, H_OK(arr, p, e))], arr, e)
    add("hepmc2::non_weight_entries", P13, facts=lambda c: [hdef(*txt(c))], requires=nwe_req, ensures=nwe_ens, returns=nwe_ret)

    # units
    EU = {v["n"]: i for i, v in enumerate(crate.adts["hepmc2::EnergyUnit"]["variants"])}

    def unit_is(arr, p, e, name):
        """the entry after the leading letter"""
        a, b = ANY_AT(arr, p + 1, e), ANY_END(arr, p + 1, e)
        return z3.And(b - a == len(name), *[z3.Select(arr, a + i) == ord(x) for i, x in enumerate(name)])

    def pu_ok(arr, p, e):
        return z3.And(ANY_OK(arr, p + 1, e), z3.Or(unit_is(arr, p, e, "GEV"), unit_is(arr, p, e, "MEV")))

    def line(ch):
        def req(c):
            arr, p, e = txt(c)
            return [("a line of its kind", z3.And(0 <= p, e < 2 ** 60, starts(arr, p, e, ch)))]
        return req

    def one_line(arr, p, q):
        """no line break from p to q"""
        k = fresh("k", I)
        return FA([k], z3.Implies(z3.And(p <= k, k < q), z3.Select(arr, k) != 10), [z3.Select(arr, k)])

    def pu_ens(c):
        arr, p, e = txt(c)
        r = c.ret
        out = [("accepted exactly if the unit is known", isok(r) == pu_ok(arr, p, e))]
        if okv(r) is not None:
            u, rest = okv(r).f
            a2, p2, e2 = parts(rest)
            out += [("the unit", z3.Implies(isok(r), (zi(u.d) == EU["GeV"]) == unit_is(arr, p, e, "GEV"))),
                    ("the rest", z3.Implies(isok(r), z3.And(a2 == arr, p2 == ANY_END(arr, p + 1, e), e2 == e, p < p2, p2 <= e))),
                    ("it stays within the line", z3.Implies(isok(r), one_line(arr, p, p2)))]
        return out

    def pu_ret(c):
        arr, p, e = txt(c)
        c.st.fact(anydef(arr, S(p + 1), e))
        q = ANY_END(arr, S(p + 1), e)
        u = EnumV("hepmc2::EnergyUnit", fresh("unit", I), {i: Agg("hepmc2::EnergyUnit", []) for i in EU.values()})
        c.st.fact(0 <= u.d, u.d < len(EU))
        return [(s, models.ok(Agg("tuple", [u, view(arr, q, e)])) if b else models.err(Opaque("ReadError"))) for s, b in models.fork(c.eng, c.st, pu_ok(arr, p, e))]
    add("hepmc2::parse_units_line", P13, facts=lambda c: [anydef(txt(c)[0], S(txt(c)[1] + 1), txt(c)[2])], requires=line("U"), ensures=pu_ens, returns=pu_ret)

    # particles
    KINDS = ["any", "i32", "double", "double", "double", "double", "any", "i32"]

    def pl(arr, p, e):
        return chainpos(arr, S(p + 1), e, KINDS)

    def out_at(o, k):
        x = sel(o, k)
        return pidval(x.f[0]), x.f[1].f[iP].f, x.f[1].f[iT]

    def particle(arr, p, e, o, k):
        """the k-th particle is the one of the line at p"""
        pos, _, _ = pl(arr, p, e)
        pid, mom, pt = out_at(o, k)
        D = ENT["double"][2]
        px, py, pz, en = (D(arr, pos[i], e) for i in (2, 3, 4, 5))
        return z3.And(pid == ENT["i32"][2](arr, pos[1], e), mom[0] == en, mom[1] == px, mom[2] == py, mom[3] == pz)

    def same_out(o1, o0):
        return z3.And(zi(o1.n) == zi(o0.n), *[x == y for x, y in zip(o1.lv, o0.lv)])

    def kept_out(o1, o0):
        k = fresh("k", I)
        return z3.And([FA([k], z3.Implies(z3.And(0 <= k, k < zi(o0.n)), z3.Select(x, k) == z3.Select(y, k)), [z3.Select(x, k)]) for x, y in zip(o1.lv, o0.lv)])

    def same_w(w1, w0):
        if isinstance(w0, SeqV):
            k = fresh("k", I)
            return z3.And(zi(w1.n) == zi(w0.n), FA([k], z3.Implies(z3.And(0 <= k, k < zi(w0.n)), z3.Select(w1.lv[0], k) == z3.Select(w0.lv[0], k)), [z3.Select(w1.lv[0], k)]))
        return w1 == w0

    def status(arr, p, e):
        pos, _, _ = pl(arr, p, e)
        return ENT["i32"][2](arr, pos[7], e)

    def pp_req(c):
        return line("P")(c) + [("memory", z3.And(0 <= zi(c.old(1).f[bO].n), zi(c.old(1).f[bO].n) < 2 ** 61))]

    def pp_ens(c):
        arr, p, e = txt(c)
        pos, end, ok = pl(arr, p, e)
        b0, b1 = c.old(1), c.new(1)
        o0, o1 = b0.f[bO], b1.f[bO]
        r = c.ret
        s, final = isok(r), status(arr, p, e) == 1
        out = [("accepted exactly if all entries are there", s == ok),
               ("an outgoing particle is added with its id and momentum", z3.Implies(z3.And(s, final), z3.And(zi(o1.n) == zi(o0.n) + 1, particle(arr, p, e, o1, o0.n)))),
               ("particles found before are kept", z3.Implies(s, kept_out(o1, o0))),
               ("no other particle is added", z3.Implies(z3.And(s, z3.Not(final)), zi(o1.n) == zi(o0.n))),
               ("weights are kept", z3.Implies(s, same_w(b1.f[bW], b0.f[bW])))]
        if okv(r) is not None:
            a2, p2, e2 = parts(okv(r))
            out.append(("the rest", z3.Implies(s, z3.And(a2 == arr, p2 == end, e2 == e, p < p2, p2 <= e))))
        return out

    def pp_ret(c):
        arr, p, e = txt(c)
        c.st.fact(*chaindefs(arr, S(p + 1), e, KINDS))
        _, end, ok = pl(arr, p, e)
        return [(s, models.ok(view(arr, end, e)) if b else models.err(Opaque("ReadError"))) for s, b in models.fork(c.eng, c.st, ok)]
    add("hepmc2::parse_particle_line", P13, facts=lambda c: chaindefs(txt(c)[0], S(txt(c)[1] + 1), txt(c)[2], KINDS), requires=pp_req, ensures=pp_ens, returns=pp_ret, modifies={1: [()]})

    # weights
    def ew_pos(arr, p, e):
        n = H_AT(arr, p, e)
        return n, ENT["u32"][2](arr, n, e), ENT["u32"][1](arr, n, e)

    W_OK = F("hepmc_weights_are_there", AI, I, I, B)

    def ewdef(arr, p, e):
        at_, n, q = ew_pos(arr, p, e)
        g = [starts(arr, p, e, "E"), H_OK(arr, p, e), ENT["u32"][0](arr, at_, e)]
        g += [rep_ok("double", arr, q, e, n), n >= 1] if multi else [ENT["double"][0](arr, q, e)]
        d = [W_OK(arr, p, e) == z3.And(g), entdef("u32", arr, at_, e)]
        if not multi:
            d.append(entdef("double", arr, q, e))
        return z3.And(d)

    def ew_end(arr, p, e):
        _, n, q = ew_pos(arr, p, e)
        return AFTER["double"](arr, q, e, n) if multi else ENT["double"][1](arr, q, e)

    def wat(arr, p, e, k):
        """k-th weight of the record"""
        _, n, q = ew_pos(arr, p, e)
        return ENT["double"][2](arr, AFTER["double"](arr, q, e, k), e) if multi else ENT["double"][2](arr, q, e)

    def ew_ens(c):
        arr, p, e = txt(c)
        at_, n, q = ew_pos(arr, p, e)
        r = c.ret
        s = isok(r)
        out = [("accepted exactly if the weights are there", s == W_OK(arr, p, e))]
        if okv(r) is not None:
            w, ws, rest = okv(r).f
            a2, p2, e2 = parts(rest)
            if multi:
                c.lemma(AFTER["double"](arr, q, e, 0) == q)
            out += [("the central weight is the first", z3.Implies(s, w == wat(arr, p, e, 0))),
                    ("the rest", z3.Implies(s, z3.And(a2 == arr, p2 == ew_end(arr, p, e), e2 == e, p < p2, p2 <= e)))]
            if multi:
                out.append(("all weights in their order", z3.Implies(s, z3.And(zi(ws.n) == n, forall(ws.n, lambda k: sel(ws, k) == wat(arr, p, e, k), lambda k: sel(ws, k))))))
        return out

    def ew_ret(c):
        arr, p, e = txt(c)
        c.st.fact(ewdef(arr, p, e))
        ws = SeqV(("z", R), [fresh("weights", z3.ArraySort(I, R))], 0, ew_pos(arr, p, e)[1] if multi else 0)
        v = Agg("tuple", [fresh("weight", R), ws, view(arr, ew_end(arr, p, e), e)])
        return [(s, models.ok(v) if b else models.err(Opaque("ReadError"))) for s, b in models.fork(c.eng, c.st, W_OK(arr, p, e))]
    add("hepmc2::extract_weights", P13, facts=lambda c: [ewdef(*txt(c))], requires=atext(), ensures=ew_ens, returns=ew_ret)

    # ------------------------------------------------------------ files are split into records without losing a byte
    RF = {m: [f["n"] for f in crate.adts[m + "::FileReader"]["variants"][0]["f"]] for m in FORMATS}

    def boundary(m):
        """first position from which the next record starts, or the end: (function, condition at q)"""
        f = F("next_%s_record" % m, AI, I, I, I)
        if m == "hepmc2":
            return f, lambda arr, p, q: z3.And(q > p, z3.Select(arr, q) == 69, z3.Select(arr, q - 1) == 10)
        if m == "stripper_xml":
            return f, lambda arr, p, q: z3.And(q >= p + 2, z3.Select(arr, q) == 101, z3.Select(arr, q - 1) == 115, z3.Select(arr, q - 2) == 60)
        return f, lambda arr, p, q: z3.And(q >= p + 7, *[z3.Select(arr, q - 7 + i) == x for i, x in enumerate(b"</event>")])

    def bdef(m, arr, p, e):
        f, cond = boundary(m)
        q = fresh("q", I)
        t = f(arr, p, e)
        return z3.Implies(p <= e, z3.And(p <= t, t <= e, z3.ForAll([q], z3.Implies(z3.And(p <= q, q < t), z3.Not(cond(arr, p, q))), patterns=[z3.Select(arr, q)]), z3.Implies(t < e, cond(arr, p, t))))
    PRE = {m: b for m, b in (("hepmc2", b"E"), ("lhef", b""), ("stripper_xml", b"<se")) if m in FORMATS}

    def src(v, m):
        return v.f[RF[m].index("source")].f

    def reads(m, v0, v1, rec):
        """the record read from the state before, and the state after: [(label, goal)]"""
        arr, p, e = src(v0, m)
        a1, p1, e1 = src(v1, m)
        f, cond = boundary(m)
        q = f(arr, p, e)
        pre = PRE[m]
        n = zi(rec.n)
        el = lambda k: z3.Select(rec.lv[0], S(zi(rec.off) + k))
        k = fresh("k", I)
        # what separates records belongs to the next one, except for the end tag of LHEF
        stop = q + 1 if m == "lhef" else q - (len(pre) - 1)
        cut = z3.If(q < e, stop, e)
        return [("the record extends to the next one", n == len(pre) + cut - p),
                ("it starts as records do", z3.And([el(i) == x for i, x in enumerate(pre)])),
                ("its bytes are those of the file", FA([k], z3.Implies(z3.And(len(pre) <= k, k < n), el(k) == z3.Select(arr, S(p + k - len(pre)))), [el(k)])),
                ("the next record is read next", z3.And(a1 == arr, e1 == e, p1 == z3.If(q < e, q + 1, e)))]

    def rr_req(m):
        def req(c):
            arr, p, e = src(c.old(0), m)
            r = [("a file", z3.And(0 <= p, p <= e, e < 2 ** 59))]
            if m == "stripper_xml":
                r.append(("the number of records is right", z3.Implies(p < e, zi(c.old(0).f[RF[m].index("rem_subevents")]) >= 1)))
            return r
        return req

    def rr_ens(m):
        def ens(c):
            v0, v1, r = c.old(0), c.new(0), c.ret
            arr, p, e = src(v0, m)
            f, _ = boundary(m)
            more = f(arr, p, e) < e if m == "lhef" else p < e
            some = zi(r.d) == 1
            out = []
            if r.pay.get(1) is None:
                return [("nothing is read only at the end", z3.Not(more))]
            x = r.pay[1].f[0]
            good = z3.And(some, zi(x.d) == 0)
            out = [("nothing is read only at the end", z3.Implies(z3.Not(some), z3.Not(more)))]
            if x.pay.get(0) is not None:
                out.append(("a record is read only if there is one", z3.Implies(good, more)))
                out += [(l, z3.Implies(good, g)) for l, g in reads(m, v0, v1, x.pay[0].f[0])]
                if m == "stripper_xml":
                    i = RF[m].index("rem_subevents")
                    out.append(("one fewer remains", z3.Implies(good, zi(v1.f[i]) == zi(v0.f[i]) - 1)))
            return out
        return ens

    def rr_inv(m):
        pre = PRE[m]

        def inv(L):
            v0, v1 = L.call.old(0), L.call.new(0) if False else models.ld(L.eng, L.st, L.arg(0))
            arr, p, e = src(v0, m)
            a1, p1, e1 = src(v1, m)
            rec = L.v("record")
            n = zi(rec.n)
            el = lambda k: z3.Select(rec.lv[0], S(zi(rec.off) + k))
            k, q = fresh("k", I), fresh("q", I)
            f, cond = boundary(m)
            L.lemma(bdef(m, arr, p, e))
            out = [("position", z3.And(a1 == arr, e1 == e, p <= p1, p1 <= e)),
                   ("bytes so far", z3.And([zi(rec.off) == 0, n == len(pre) + p1 - p] + [el(i) == x for i, x in enumerate(pre)])),
                   ("bytes of the file so far", FA([k], z3.Implies(z3.And(len(pre) <= k, k < n), el(k) == z3.Select(arr, S(p + k - len(pre)))), [el(k)])),
                   ("no record has ended before", z3.ForAll([q], z3.Implies(z3.And(p <= q, q < (p1 if m == "stripper_xml" else p1 - 1)), z3.Not(cond(arr, p, q))), patterns=[z3.Select(arr, q)]))]
            if m == "stripper_xml":
                i = RF[m].index("rem_subevents")
                out.append(("remaining records", zi(v1.f[i]) == zi(v0.f[i])))
            return out
        return inv

    for m, pr in FORMATS.items():
        add(m + "::FileReader::read_raw", pr, facts=(lambda m: lambda c: [bdef(m, *src(c.old(0), m))])(m), requires=rr_req(m), ensures=rr_ens(m), modifies={0: [()]}, loops={0: LoopSpec(rr_inv(m))})

    # the header is what comes before the first record
    HEND = {m: F("end_of_%s_header" % m, AI, I, I) for m in PRE}
    MARK = {"hepmc2": b"\nE", "lhef": b"\n</init>", "stripper_xml": b"<se"}

    def hcond(m, arr, q):
        """a record starts after position q"""
        b = MARK[m]
        return z3.And(q >= len(b) - 1, *[z3.Select(arr, q - len(b) + 1 + i) == x for i, x in enumerate(b)])

    def headdef(m, arr, e):
        t = HEND[m](arr, e)
        q = fresh("q", I)
        return z3.And(0 <= t, t <= e, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < t), z3.Not(hcond(m, arr, q))), patterns=[z3.Select(arr, q)]), z3.Implies(t < e, hcond(m, arr, t)))

    def opened(m, path, header, source):
        """header and source of a file just opened"""
        arr, e = CONTENT(path), CONLEN(path)
        t = HEND[m](arr, e)
        cut = {"hepmc2": t, "lhef": t + 1, "stripper_xml": t - 2}[m]
        k = fresh("k", I)
        el = z3.Select(header.lv[0], S(zi(header.off) + k))
        return [("the header ends where the first record starts", zi(header.n) == z3.If(t < e, cut, e)),
                ("it is the start of the file", FA([k], z3.Implies(z3.And(0 <= k, k < zi(header.n)), el == z3.Select(arr, k)), [el])),
                ("the rest is yet to be read", z3.And(source.f[0] == arr, source.f[1] == z3.If(t < e, t + 1, e), source.f[2] == e))]

    def is_ens(m):
        def ens(c):
            r = c.ret
            path = zi(models.ld(c.eng, c.st, c.a[0]))
            if okv(r) is None:
                return []
            h, src_ = okv(r).f
            return [(l, z3.Implies(isok(r), g)) for l, g in opened(m, path, h, src_)]
        return ens

    def is_ret(m):
        def ret(c):
            path = zi(models.ld(c.eng, c.st, c.a[0]))
            arr, e = CONTENT(path), CONLEN(path)
            s1, s2 = c.st.copy(), c.st.copy()
            s1.fact(0 <= e, e < 2 ** 60, headdef(m, arr, e))
            t = HEND[m](arr, e)
            n = fresh("header", I)
            s1.fact(0 <= n, n <= e)
            h = SeqV(("z", I), [fresh("header", AI)], 0, n)
            return [(s1, models.ok(Agg("tuple", [h, Agg("stream", [arr, S(z3.If(t < e, t + 1, e)), e])]))), (s2, models.err(Opaque("CreateError")))]
        return ret

    def is_inv(m):
        def inv(L):
            path = zi(models.ld(L.eng, L.st, L.call.a[0]))
            arr, e = CONTENT(path), CONLEN(path)
            L.lemma(headdef(m, arr, e))
            h = L.v("header")
            a1, p1, e1 = L.v("buf").f
            n = zi(h.n)
            k, q = fresh("k", I), fresh("q", I)
            el = z3.Select(h.lv[0], S(zi(h.off) + k))
            return [("position", z3.And(a1 == arr, e1 == e, 0 <= p1, p1 <= e, n == p1, zi(h.off) == 0)),
                    ("bytes so far", FA([k], z3.Implies(z3.And(0 <= k, k < n), el == z3.Select(arr, k)), [el])),
                    ("the first record has not started before", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p1 - 1), z3.Not(hcond(m, arr, q))), patterns=[z3.Select(arr, q)]))]
        return inv

    def is_facts(m):
        def facts(c):
            path = zi(models.ld(c.eng, c.st, c.a[0]))
            return [headdef(m, CONTENT(path), CONLEN(path)), 0 <= CONLEN(path), CONLEN(path) < 2 ** 60]
        return facts
    for m, pr in FORMATS.items():
        con = add(m + "::init_source", pr, facts=is_facts(m), ensures=is_ens(m), returns=is_ret(m), loops={0: LoopSpec(is_inv(m))})
        con.tyover = dict(TYOVER)
        con.tyover["impl AsRef<Path>"] = ("z", I)

    # ------------------------------------------------------------ opening and rewinding
    def nsub(h):
        return NSUB(h.lv[0], zi(h.n))

    def m_info(eng, st, a, info):
        """the attributes of the first tag are read by quick_xml: some number of records, depending on the header"""
        h = models.ld(eng, st, a[0])
        if not isinstance(h, SeqV):
            return NotImplemented
        st = st.copy()
        n = nsub(h)
        st.fact(0 <= n, n < 2 ** 63)
        return [(st, models.ok(n)), (st.copy(), models.err(Opaque("CreateError")))]

    def rd(v, m, f):
        return v.f[RF[m].index(f)]

    def fr_new_ens(m):
        def ens(c):
            r = c.ret
            if okv(r) is None:
                return []
            v = okv(r)
            path = zi(c.a[0])
            out = opened(m, path, rd(v, m, "header"), rd(v, m, "source")) + [("it is the file asked for", zi(rd(v, m, "source_path")) == path)]
            if m == "stripper_xml":
                out.append(("number of records", zi(rd(v, m, "rem_subevents")) == nsub(rd(v, m, "header"))))
            return [(l, z3.Implies(isok(r), g)) for l, g in out]
        return ens

    def rw_ens(m):
        def ens(c):
            v0, v1, r = c.old(0), c.new(0), c.ret
            path = zi(rd(v0, m, "source_path"))
            arr, e = CONTENT(path), CONLEN(path)
            t = HEND[m](arr, e)
            a1, p1, e1 = rd(v1, m, "source").f
            h0, h1 = rd(v0, m, "header"), rd(v1, m, "header")
            out = [("reading restarts with the first record", z3.And(a1 == arr, p1 == z3.If(t < e, t + 1, e), e1 == e)),
                   ("path and header are kept", z3.And(zi(rd(v1, m, "source_path")) == path, h1.lv[0] == h0.lv[0], zi(h1.n) == zi(h0.n)))]
            if m == "stripper_xml":
                out.append(("number of records", zi(rd(v1, m, "rem_subevents")) == nsub(h0)))
            return [(l, z3.Implies(isok(r), g)) for l, g in out]
        return ens
    for m, pr in FORMATS.items():
        mods = {"stripper_xml::extract_nsubevents": m_info} if m == "stripper_xml" else {}
        con = add(m + "::FileReader::try_new", pr, mods=mods, ensures=fr_new_ens(m))
        con.inline = True
        add("<%s::FileReader as traits::Rewind>::rewind" % m, pr, mods=mods, ensures=rw_ens(m), modifies={0: [()]})

    # ------------------------------------------------------------ writing
    IF = {m: [f["n"] for f in crate.adts[m + "::FileIO"]["variants"][0]["f"]] for m in PRE}

    def fio(v, m, f):
        return v.f[IF[m].index(f)]

    def new_ens(m):
        def ens(c):
            r = c.ret
            if okv(r) is None:
                return []
            v = okv(r)
            path = zi(c.a[0])
            R = fio(v, m, "reader")
            h = rd(R, m, "header")
            a, _, n = fio(v, m, "sink").f
            out = opened(m, path, h, rd(R, m, "source"))
            w0, w1 = c.a[3], fio(v, m, "_weight_names")
            out.append(("paths", z3.And(zi(rd(R, m, "source_path")) == path, zi(fio(v, m, "sink_path")) == zi(c.a[1]))))
            out.append(("names of weights", z3.And(zi(w0.n) == zi(w1.n), *[a == b for a, b in zip(w0.lv, w1.lv)])))
            k = fresh("k", I)
            out.append(("the output starts with the header", z3.And(zi(n) == zi(h.n), FA([k], z3.Implies(z3.And(0 <= k, k < zi(h.n)), z3.Select(a, k) == z3.Select(h.lv[0], S(zi(h.off) + k))), [z3.Select(a, k)]))))
            if m == "stripper_xml":
                sc = models.ld(c.eng, c.st, c.a[4])
                nm = RECNAME(h.lv[0], zi(h.n))
                out.append(("the scale of its contribution", z3.And(sc.has([nm]), fio(v, m, "weight_scale") == sc.get([nm]))))
            return [(l, z3.Implies(isok(r), g)) for l, g in out]
        return ens

    if "stripper_xml" in FORMATS:
        XT = {v["n"]: i for i, v in enumerate(crate.adts["stripper_xml::XMLTag"]["variants"])}
        XF = [f["n"] for f in crate.adts["stripper_xml::XMLTag"]["variants"][XT["Eventrecord"]]["f"]]

    def m_tag_of(eng, st, a, info):
        """the first tag, as read by quick_xml: an event record's name, or something else"""
        h = models.ld(eng, st, a[0])
        if not isinstance(h, SeqV):
            return NotImplemented
        rec = Agg("stripper_xml::XMLTag", [RECNAME(h.lv[0], zi(h.n)) if f == "name" else fresh(f, I) for f in XF])
        return [(st.copy(), models.ok(EnumV("stripper_xml::XMLTag", XT["Eventrecord"], {XT["Eventrecord"]: rec}))),
                (st.copy(), models.ok(EnumV("stripper_xml::XMLTag", XT["Normalization"], {XT["Normalization"]: Agg("stripper_xml::XMLTag", [fresh("name", I), fresh("scale", R)])}))),
                (st.copy(), models.err(Opaque("CreateError")))]

    def m_errtext(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        return [(st, fresh("message", I))] if isinstance(v, EnumV) else NotImplemented
    for m, pr in FORMATS.items():
        con = add(m + "::FileIO::try_new", pr, mods={"stripper_xml::extract_nsubevents": m_info, "stripper_xml::extract_xml_info": m_tag_of, "std::string::ToString::to_string": m_errtext} if m == "stripper_xml" else None, ensures=new_ens(m))
        con.tyover = dict(TYOVER)
        con.tyover["std::string::String"] = ("z", I)
        con.uses = (m + "::init_source",)

    # ------------------------------------------------------------ STRIPPER: start of a record
    TAG_OK, WT_AT = F("is_stripper_record_start", AI, I, I, B), F("stripper_weight_at", AI, I, I, I)

    def tagdef(arr, p, e):
        """<se w=" with blanks in between"""
        b = BLANKS(arr, p + 3, e)
        return z3.And(z3.Implies(p + 3 <= e, blankdef(arr, S(p + 3), e)), TAG_OK(arr, p, e) == z3.And(at(arr, p, b"<se", e), b > p + 3, at(arr, b, b'w="', e)), WT_AT(arr, p, e) == b + 3)

    def ws_ens(c):
        arr, p, e = txt(c)
        r = c.ret
        out = [("a record is recognised exactly by its start", isok(r) == TAG_OK(arr, p, e))]
        if okv(r) is not None:
            a2, p2, e2 = parts(okv(r).f[0])
            a3, p3, e3 = parts(okv(r).f[1])
            q = WT_AT(arr, p, e)
            out.append(("it is split in front of the weight", z3.Implies(isok(r), z3.And(a2 == arr, p2 == q, e2 == e, a3 == arr, p3 == p, e3 == q, p < q, q <= e))))
        return out

    def ws_ret(c):
        arr, p, e = txt(c)
        c.st.fact(tagdef(arr, p, e))
        q = WT_AT(arr, p, e)
        return result([(s, (q, view(arr, p, q)) if b else None) for s, b in models.fork(c.eng, c.st, TAG_OK(arr, p, e))], arr, e)
    add("stripper_xml::weight_start", P14, facts=lambda c: [tagdef(*txt(c))], requires=atext(), ensures=ws_ens, returns=ws_ret)

    # ------------------------------------------------------------ LHEF: entries before the weight
    L_OK, L_AT = F("lhef_entries_before_weight", AI, I, I, B), F("lhef_weight_at", AI, I, I, I)

    def ldef(arr, p, e):
        """the weight follows the second entry of the line after the first"""
        t = TRIMMED(arr, p, e)
        nl = FINDC(z3.IntVal(10), arr, t, e)
        b = BLANKS(arr, nl + 1, e)
        w = WORD(arr, b, e)
        return z3.And(skipdef(TRIMMED, white, arr, p, e), finddef(10, arr, t, e), z3.Implies(nl < e, blankdef(arr, S(nl + 1), e)), z3.Implies(z3.And(nl < e, b <= e), worddef(arr, b, e)), z3.Implies(z3.And(nl < e, w <= e), anydef(arr, w, e)),
                      L_OK(arr, p, e) == z3.And(w > b, ANY_OK(arr, w, e)), L_AT(arr, p, e) == ANY_END(arr, w, e))

    def lnl(arr, p, e):
        return FINDC(z3.IntVal(10), arr, TRIMMED(arr, p, e), e) < e

    def ln_ens(c):
        arr, p, e = txt(c)
        r = c.ret
        q = L_AT(arr, p, e)
        out = [("succeeds exactly if the entries are there", isok(r) == L_OK(arr, p, e))]
        if okv(r) is not None:
            a2, p2, e2 = parts(okv(r).f[0])
            out.append(("the rest starts in front of the weight", z3.Implies(isok(r), z3.And(a2 == arr, p2 == q, e2 == e, p < p2, p2 <= e))))
        return out

    def ln_ret(c):
        arr, p, e = txt(c)
        c.st.fact(ldef(arr, p, e))
        q = L_AT(arr, p, e)
        return result([(s, (q, view(arr, TRIMMED(arr, p, e), q)) if b else None) for s, b in models.fork(c.eng, c.st, L_OK(arr, p, e))], arr, e)
    add("lhef::non_weight_entries", P14, facts=lambda c: [ldef(*txt(c))], requires=lambda c: atext()(c) + [("the record has a second line", lnl(*txt(c)))], ensures=ln_ens, returns=ln_ret)

    # ------------------------------------------------------------ a record is written back with another weight
    def helper_req(m):
        def req(c):
            v = c.old(0)
            R = fio(v, m, "reader")
            arr, p, e = src(R, m)
            w = models.ld(c.eng, c.st, c.a[1])
            out = [("a file", z3.And(0 <= p, p <= e, e < 2 ** 59)), ("an output", z3.And(0 <= zi(fio(v, m, "sink").f[2]), zi(fio(v, m, "sink").f[2]) < 2 ** 62))]
            if multi:
                out.append(("number of weights", z3.And(0 <= wn(w), wn(w) < 2 ** 60)))
            if m == "stripper_xml":
                out += [("the number of records is right", z3.Implies(p < e, zi(rd(R, m, "rem_subevents")) >= 1)), ("the scale is not zero", fio(v, m, "weight_scale") != 0)]
            if m != "hepmc2" and multi:
                out.append(("one weight", wn(w) <= 1))
            if m == "hepmc2" and multi:
                out.append(("only the central weight is wanted", zi(fio(v, m, "_weight_names").n) == 0))
            if m == "lhef":
                q = boundary(m)[0](arr, p, e)
                out.append(("the record has a second line", z3.Implies(q < e, lnl(arr, p, S(q + 1)))))
            return out
        return req

    def place(m, v, rec):
        """where in the record the weight entry is, the value to write, and whether it is there"""
        arr, p, e = parts(rec)
        if m == "hepmc2":
            q = ENT["u32"][1](arr, H_AT(arr, p, e), e)
            return ANY_AT(arr, q, e) - p, ANY_END(arr, q, e) - p, lambda w: w
        if m == "lhef":
            q = L_AT(arr, p, e)
            return ANY_AT(arr, q, e) - p, ANY_END(arr, q, e) - p, lambda w: w
        q = WT_AT(arr, p, e)
        return q - p, NUMS["double"][1](arr, q, e) - p, lambda w: w / fio(v, m, "weight_scale")

    def placedef(m, rec):
        arr, p, e = parts(rec)
        if m == "hepmc2":
            return z3.And(hdef(arr, p, e), entdef("u32", arr, H_AT(arr, p, e), e))
        if m == "lhef":
            return ldef(arr, p, e)
        return z3.And(tagdef(arr, p, e), numdef("double", arr, WT_AT(arr, p, e), e))

    def equal_text(a, b):
        k = fresh("k", I)
        return [("length", zi(a.n) == zi(b.n)), ("bytes", FA([k], z3.Implies(z3.And(0 <= k, k < zi(b.n)), z3.Select(a.lv[0], S(zi(a.off) + k)) == z3.Select(b.lv[0], S(zi(b.off) + k))), [z3.Select(a.lv[0], S(zi(a.off) + k))]))]

    def helper_ens(m):
        def ens(c):
            v0, v1, r = c.old(0), c.new(0), c.ret
            R0, R1 = fio(v0, m, "reader"), fio(v1, m, "reader")
            arr, p, e = src(R0, m)
            more = boundary(m)[0](arr, p, e) < e if m == "lhef" else p < e
            w = models.ld(c.eng, c.st, c.a[1])
            rec = [t[1] for t in c.st.trace if t[0] == "record"]
            wr = [t[1] for t in c.st.trace if t[0] == "written"]
            s0, s1 = fio(v0, m, "sink").f, fio(v1, m, "sink").f
            if okv(r) is None:
                return []
            b = zb(okv(r))
            yes, no = z3.And(isok(r), b), z3.And(isok(r), z3.Not(b))
            out = [("nothing is written only at the end", z3.Implies(no, z3.And(z3.Not(more), s1[0] == s0[0], s1[2] == s0[2])))]
            if len(rec) != 1 or len(wr) != 1:
                return out + [("one record is read and one is written", z3.Not(yes))]
            rec, wr = rec[0], wr[0]
            out.append(("a record is written only if one is read", z3.Implies(yes, more)))
            out += [(l, z3.Implies(yes, g)) for l, g in reads(m, R0, R1, rec)]
            none = wn(w) == 0 if multi else z3.BoolVal(False)
            a, z, f = place(m, v0, rec)
            val = f(num(wk(w, z3.IntVal(0))))
            t = SeqV(("z", I), [DTXT(val)], 0, DLEN(val))
            out += [("without weights the record is kept: " + l, z3.Implies(z3.And(yes, none), g)) for l, g in equal_text(wr, rec)]
            out += [("only the weight entry is replaced: " + l, z3.Implies(z3.And(yes, z3.Not(none)), g)) for l, g in spliced(wr, rec, S(a), S(z), t)]
            so0, so1 = SeqV(("z", I), [s0[0]], 0, s0[2]), SeqV(("z", I), [s1[0]], 0, s1[2])
            out += [("it is added to the output: " + l, z3.Implies(yes, g)) for l, g in extended(so1, so0, wr)]
            return out
        return ens

    def read_trace(con):
        m = con.path.split("::")[0]

        def ret(c, info=None):
            arr, p, e = src(c.old(0), m)
            c.st.fact(bdef(m, arr, p, e))
            q = boundary(m)[0](arr, p, e)
            more = q < e if m == "lhef" else p < e
            out = []
            for s, b in models.fork(c.eng, c.st, more):
                if not b:
                    out.append((s, models.none()))
                    continue
                n = fresh("length", I)
                s.fact(n >= 0)
                rec = view(arr, p, S(q + 1)) if m == "lhef" else SeqV(("z", I), [fresh("record", AI)], 0, n)
                s.trace = s.trace + (("record", rec),)
                s.fact(placedef(m, rec))
                out.append((s, models.some(models.ok(rec))))
            out.append((c.st.copy(), models.some(models.err(Opaque("ReadError")))))
            return out
        con.returns = ret
    for con in cs:
        if con.path.endswith("::read_raw"):
            read_trace(con)
    for m, pr in FORMATS.items():
        add("<%s::FileIO as traits::UpdateWeights>::update_next_weights" % m, pr, requires=helper_req(m), ensures=helper_ens(m), modifies={0: [()]})

    # STRIPPER weights are scaled when a record is read
    def rs_ens(c):
        old, new = c.old(1), c.new(1)
        arr, p, e = parts(old)
        q = WT_AT(arr, p, e)
        ok, end, val = NUMS["double"]
        v = models.ld(c.eng, c.st, c.a[0])
        x = fio(v, "stripper_xml", "weight_scale") * val(arr, q, e)
        t = SeqV(("z", I), [DTXT(x)], 0, DLEN(x))
        s = isok(c.ret)
        return [("accepted exactly if there is a weight", s == z3.And(TAG_OK(arr, p, e), ok(arr, q, e)))] + \
               [("exactly the weight is replaced by the weight times the scale: " + l, z3.Implies(s, g)) for l, g in spliced(new, old, S(q - p), S(end(arr, q, e) - p), t)]
    add("stripper_xml::FileIO::rescale_weight", P14, facts=lambda c: [placedef("stripper_xml", c.old(1))],
        requires=lambda c: [("a text", z3.And(0 <= parts(c.old(1))[1], parts(c.old(1))[1] <= parts(c.old(1))[2], parts(c.old(1))[2] < 2 ** 60))], ensures=rs_ens, modifies={1: [()]})

    # ------------------------------------------------------------ records as they are handed out
    EV = {v["n"]: i for i, v in enumerate(crate.adts["io::EventRecord"]["variants"])}
    KINDREC = {"hepmc2": "HepMC", "lhef": "LHEF", "stripper_xml": "StripperXml"}

    def more_in(m, R):
        arr, p, e = src(R, m)
        return boundary(m)[0](arr, p, e) < e if m == "lhef" else p < e

    def handed(c, m, ens_of):
        """the result of an iterator over records: None only at the end; a record of this format"""
        r = c.ret
        whole = crate.adts.get(m + "::FileIO") and m + "::FileIO" in c.con.path
        R0, R1 = (fio(c.old(0), m, "reader"), fio(c.new(0), m, "reader")) if whole else (c.old(0), c.new(0))
        some = zi(r.d) == 1
        out = [("nothing is handed out only at the end", z3.Implies(z3.Not(some), z3.Not(more_in(m, R0))))]
        if r.pay.get(1) is None:
            return out
        x = r.pay[1].f[0]
        v = okv(x)
        if v is None:
            return out
        good = z3.And(some, zi(x.d) == 0)
        k = EV[KINDREC[m]]
        out.append(("a record is handed out only if there is one", z3.Implies(good, more_in(m, R0))))
        out.append(("it is labelled with its format", z3.Implies(good, zi(v.d) == k)))
        if v.pay.get(k) is None:
            return out + [("it has the text of the record", z3.Not(good))]
        return out + [(l, z3.Implies(good, g)) for l, g in ens_of(R0, R1, v.pay[k].f[0])]

    def next_req(m, whole):
        def req(c):
            R = fio(c.old(0), m, "reader") if whole else c.old(0)
            arr, p, e = src(R, m)
            out = [("a file", z3.And(0 <= p, p <= e, e < 2 ** 59))]
            if m == "stripper_xml":
                out.append(("the number of records is right", z3.Implies(p < e, zi(rd(R, m, "rem_subevents")) >= 1)))
            return out
        return req

    def frn_ens(m):
        return lambda c: handed(c, m, lambda R0, R1, rec: reads(m, R0, R1, rec))

    def fin_ens(m):
        def ens(c):
            v0, v1 = c.old(0), c.new(0)

            def body(R0, R1, rec):
                if m != "stripper_xml":
                    return reads(m, R0, R1, rec)
                raw = [t[1] for t in c.st.trace if t[0] == "record"]
                if len(raw) != 1:
                    return [("one record is read", z3.BoolVal(False))]
                raw = raw[0]
                arr, p, e = parts(raw)
                q = WT_AT(arr, p, e)
                _, end, val = NUMS["double"]
                x = fio(v0, m, "weight_scale") * val(arr, q, e)
                t = SeqV(("z", I), [DTXT(x)], 0, DLEN(x))
                return [("read: " + l, g) for l, g in reads(m, R0, R1, raw)] + \
                       [("exactly the weight is replaced by the weight times the scale: " + l, g) for l, g in spliced(rec, raw, S(q - p), S(end(arr, q, e) - p), t)]
            return handed(c, m, body) + [("the output is not touched", z3.And(fio(v1, m, "sink").f[0] == fio(v0, m, "sink").f[0], zi(fio(v1, m, "sink").f[2]) == zi(fio(v0, m, "sink").f[2])))]
        return ens

    def fio_rw_ens(m):
        def ens(c):
            v0, v1, r = c.old(0), c.new(0), c.ret
            R0, R1 = fio(v0, m, "reader"), fio(v1, m, "reader")
            path = zi(rd(R0, m, "source_path"))
            arr, e = CONTENT(path), CONLEN(path)
            t = HEND[m](arr, e)
            a1, p1, e1 = rd(R1, m, "source").f
            out = [("reading restarts with the first record", z3.And(a1 == arr, p1 == z3.If(t < e, t + 1, e), e1 == e)),
                   ("the path is kept", zi(rd(R1, m, "source_path")) == path),
                   ("what is written stays", z3.And(fio(v1, m, "sink").f[0] == fio(v0, m, "sink").f[0], zi(fio(v1, m, "sink").f[2]) == zi(fio(v0, m, "sink").f[2])))]
            if m == "stripper_xml":
                out.append(("number of records", zi(rd(R1, m, "rem_subevents")) == nsub(rd(R0, m, "header"))))
            return [(l, z3.Implies(isok(r), g)) for l, g in out]
        return ens

    FOOTER = b"\n</LesHouchesEvents>\n"

    def foot_ens(c):
        v0, v1, r = c.old(0), c.new(0), c.ret
        s0, s1 = fio(v0, "lhef", "sink").f, fio(v1, "lhef", "sink").f
        n0 = zi(s0[2])
        k = fresh("k", I)
        return [("the end tag is written: length", z3.Implies(isok(r), zi(s1[2]) == n0 + len(FOOTER))),
                ("the end tag is written: text", z3.Implies(isok(r), z3.And([z3.Select(s1[0], S(n0 + i)) == x for i, x in enumerate(FOOTER)]))),
                ("after what was written before", z3.Implies(isok(r), FA([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(s1[0], k) == z3.Select(s0[0], k)), [z3.Select(s1[0], k)])))]
    for m, pr in FORMATS.items():
        add("<%s::FileReader as std::iter::Iterator>::next" % m, pr, requires=next_req(m, False), ensures=frn_ens(m), modifies={0: [()]})
        add("<%s::FileIO as std::iter::Iterator>::next" % m, pr, requires=next_req(m, True), ensures=fin_ens(m), modifies={0: [()]})
        add("<%s::FileIO as traits::Rewind>::rewind" % m, pr, ensures=fio_rw_ens(m), modifies={0: [()]})
    add("<lhef::FileIO as traits::UpdateWeights>::finish_weight_update", P14, requires=lambda c: [("an output", z3.And(0 <= zi(fio(c.old(0), "lhef", "sink").f[2]), zi(fio(c.old(0), "lhef", "sink").f[2]) < 2 ** 62))],
        ensures=foot_ens, modifies={0: [()]})
    return cs, types.SimpleNamespace(**locals())
