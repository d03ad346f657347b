"""lhef.rs, stripper_xml.rs: what an event record is read as."""
from contracts import formats
from contracts.common import *
from contracts.text import *
from contracts.text import multi as multi_
from contracts.formats import okv, isok, starts
from contracts.building import pidval

# lines of a text: start and end of the k-th, and their number
LSTART, LEND = F("start_of_line", AI, I, I, I, I), F("end_of_line", AI, I, I, I, I)
NLINES = F("number_of_lines", AI, I, I, I)


def linedefs(arr, p, e):
    """lines end with a line break or the text; a carriage return before the break does not belong to them"""
    k = fresh("k", I)
    s, t, nx = LSTART(arr, p, e, k), LEND(arr, p, e, k), LSTART(arr, p, e, k + 1)
    n = NLINES(arr, p, e)
    nl = nx - 1
    brk = z3.And(nl < e, z3.Select(arr, nl) == 10)
    return z3.Implies(p <= e, z3.And(0 <= n, n <= e - p, LSTART(arr, p, e, 0) == p, LSTART(arr, p, e, n) >= e,
                  z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(p <= s, s < e, nx == FINDC(z3.IntVal(10), arr, s, e) + 1, s <= nl, nl <= e,
                                                                       t == z3.If(z3.And(brk, nl > s, z3.Select(arr, nl - 1) == 13), nl - 1, nl))), patterns=[t])))


def m_lines(eng, st, a, info):
    arr, p, e = parts(models.ld(eng, st, a[0]))
    st = st.copy()
    st.fact(linedefs(arr, p, e))
    return [(st, It(NLINES(arr, p, e), lambda k: view(arr, LSTART(arr, p, e, zi(k)), LEND(arr, p, e, zi(k)))))]


def contracts(crate, multi):
    _, ns = formats.build(crate, multi)
    cs = []
    P = ("C14",)
    if "lhef" not in ns.FORMATS:
        return cs
    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    bW, bO = BF.index("weights"), BF.index("outgoing_by_pid")
    D = ENT["double"][2]

    def add(path, facts=None, mods=None, **kw):
        con = text(Contract(path, props=P, **kw), **(mods or {}))
        if facts:
            con.facts = facts
        cs.append(con)
        return con

    def txt(c, i=0):
        return parts(models.ld(c.eng, c.st, c.a[i]))

    def num(x):
        while isinstance(x, Agg):
            x = x.f[0]
        return x

    def w0(w):
        return num(sel(w, 0)) if multi else num(w)

    def one_weight(w, x):
        return z3.And(zi(w.n) == 1, w0(w) == x) if multi else w0(w) == x

    def record_ens(c, ok, wt, n, pid_of, mom_of):
        """accepted exactly if ok; then the event built has the weight and n particles with the given ids and momenta"""
        r = c.ret
        s = isok(r)
        out = [("accepted exactly if it is complete", s == ok)]
        tr = [t for t in c.st.trace if t[0] == "built"]
        if okv(r) is None:
            return out
        if len(tr) != 1:
            return out + [("an event is put together", z3.Not(s))]
        b, ev = tr[0][1], tr[0][2]
        o, w, x = b.f[bO], b.f[bW], okv(r)
        k = fresh("k", I)
        pid, mom, _ = ns.out_at(o, k)
        out += [("it is the event put together", z3.Implies(s, z3.And([zi(x.f[0]) == zi(ev.f[0]), zi(x.f[1].id) == zi(ev.f[1].id)] + [y == z for y, z in zip(x.f[2].lv, ev.f[2].lv)]))),
                ("its weight is the one of the record", z3.Implies(s, one_weight(w, wt))),
                ("as many particles as outgoing ones in the record", z3.Implies(s, zi(o.n) == n)),
                ("each outgoing particle has the id of its entry", FA([k], z3.Implies(z3.And(s, 0 <= k, k < zi(o.n)), pid == pid_of(k)), [pid]))]
        for i, nm in enumerate(("energy", "px", "py", "pz")):
            out.append(("and its %s" % nm, FA([k], z3.Implies(z3.And(s, 0 <= k, k < zi(o.n)), mom[i] == mom_of(k)[i]), [mom[i]])))
        return out

    # ------------------------------------------------------------ STRIPPER XML: particles follow each other
    AT, COUNT, ALLOK = F("kth_outgoing_tag", AI, I, I, I, I), F("number_of_outgoing_tags", AI, I, I, I), F("tags_are_valid", AI, I, I, B)
    find_end = fneedle(b"</p>")
    iok, iend, ival = NUMS["i32"]
    dok, dend, dval = NUMS["double"]

    class Tag:
        """what starts at q, after white space"""
        def __init__(self, arr, q, e):
            self.arr, self.q, self.e = arr, q, e
            self.s = SPACES(arr, q, e)
            self.there = at(arr, self.s, b"<p", e)
            self.b = BLANKS(arr, S(self.s + 2), e)
            self.i = S(self.b + 4)
            self.open = z3.And(at(arr, self.b, b'id="', e), iok(arr, self.i, e))
            self.r1 = iend(arr, self.i, e)
            self.outgoing = ival(arr, self.i, e) == 0
            # not outgoing: up to the end tag
            self.f = find_end(arr, self.r1, e)
            # outgoing: id and momentum
            self.j = S(self.r1 + 1)
            self.r2 = iend(arr, self.j, e)
            self.pid = ival(arr, self.j, e)
            q = S(self.r2 + 3)
            self.m0 = q
            q = BLANKS(arr, q, e)
            self.nums = []
            for k in range(4):
                self.nums.append(q)
                q = S(dend(arr, q, e) + (1 if k < 3 else 0))
            self.last = q
            self.m1 = BLANKS(arr, q, e)
            self.mom = [dval(arr, x, e) for x in self.nums]
            full = [at(arr, self.r1, b",", e), iok(arr, self.j, e), at(arr, self.r2, b'">', e)]
            for k, x in enumerate(self.nums):
                full.append(dok(arr, x, e))
                if k < 3:
                    full.append(at(arr, dend(arr, x, e), b",", e))
            full.append(at(arr, self.m1, b"</p>", e))
            self.valid = z3.And(self.open, z3.If(self.outgoing, z3.And(full), self.f < e))
            self.next = z3.If(self.outgoing, self.m1 + 4, self.f + 4)

        def defs(self):
            arr, e = self.arr, self.e
            inside = lambda x, d: z3.Implies(x <= e, d)
            return [inside(self.q, skipdef(SPACES, multi_, arr, self.q, e)), inside(S(self.s + 2), blankdef(arr, S(self.s + 2), e)), inside(self.i, numdef("i32", arr, self.i, e)), inside(self.r1, findtext(b"</p>", arr, self.r1, e)),
                    inside(self.j, numdef("i32", arr, self.j, e)), inside(self.m0, blankdef(arr, self.m0, e)), inside(self.last, blankdef(arr, self.last, e))] + [inside(x, numdef("double", arr, x, e)) for x in self.nums]

        def step(self):
            """the tags from here on"""
            arr, q, e, k = self.arr, self.q, self.e, fresh("k", I)
            one = z3.If(self.outgoing, z3.IntVal(1), z3.IntVal(0))
            go = z3.And(self.there, self.valid)
            return self.defs() + [ALLOK(arr, q, e) == z3.Or(z3.Not(self.there), z3.And(self.valid, ALLOK(arr, self.next, e))),
                                  COUNT(arr, q, e) == z3.If(go, one + COUNT(arr, self.next, e), z3.IntVal(0)),
                                  z3.ForAll([k], z3.Implies(go, AT(arr, q, e, k) == z3.If(z3.And(self.outgoing, k == 0), q, AT(arr, self.next, e, k - one))), patterns=[AT(arr, q, e, k)])]

    def xml():
        def sp(c):
            arr, p, e = txt(c, 1)
            w = ns.WT_AT(arr, p, e)
            g = FINDC(z3.IntVal(62), arr, dend(arr, w, e), e)
            return arr, p, e, w, g, S(g + 1)

        def req(c):
            arr, p, e, w, g, q0 = sp(c)
            return [("a text", z3.And(0 <= p, p <= e, e < 2 ** 59)), ("it does not end with the start of a particle", z3.Not(at(arr, S(e - 2), b'">', e)))]

        def inv(L):
            arr, p, e, w, g, q0 = sp(L.call)
            b = L.v("event")
            o = b.f[bO]
            a1, q, e1 = parts(L.v("rest'"))
            j, k = fresh("j", I), fresh("k", I)
            L.lemma(*Tag(arr, q, e).step())
            if L.st is not L.head and hasattr(L.head, "store"):
                try:
                    _, qh, _ = parts(L._val(L.head, "rest'"))
                    L.lemma(*Tag(arr, qh, e).step())
                except Unsupported:
                    pass
            T = Tag(arr, AT(arr, q0, e, j), e)
            pid, mom, _ = ns.out_at(o, j)
            return [("cursor", z3.And(a1 == arr, e1 == e, q0 <= q, q <= e, ns.TAG_OK(arr, p, e), dok(arr, w, e), g < e)),
                    ("particles so far", z3.And(0 <= zi(o.n), zi(o.n) <= q, zi(o.n) + COUNT(arr, q, e) == COUNT(arr, q0, e))),
                    ("particles to come", z3.ForAll([k], z3.Implies(k >= zi(o.n), AT(arr, q0, e, k) == AT(arr, q, e, k - zi(o.n))), patterns=[AT(arr, q0, e, k)])),
                    ("each outgoing particle is the one of its tag", FAany([j], z3.Implies(z3.And(0 <= j, j < zi(o.n)), z3.And(pid == T.pid, *[x == y for x, y in zip(mom, T.mom)])), [pid] + mom)),
                    ("validity", ALLOK(arr, q0, e) == ALLOK(arr, q, e)),
                    ("the weight", one_weight(b.f[bW], dval(arr, w, e)))]

        def ens(c):
            arr, p, e, w, g, q0 = sp(c)
            ok = z3.And(ns.TAG_OK(arr, p, e), dok(arr, w, e), g < e, ALLOK(arr, q0, e))
            T = lambda k: Tag(arr, AT(arr, q0, e, k), e)
            return record_ens(c, ok, dval(arr, w, e), COUNT(arr, q0, e), lambda k: T(k).pid, lambda k: T(k).mom)
        con = add("<io::Converter as stripper_xml::StripperXmlParser>::parse_stripper_xml", requires=req, ensures=ens, loops={0: LoopSpec(inv)},
                  facts=lambda c: (lambda arr, p, e, w, g, q0: [ns.tagdef(arr, p, e), numdef("double", arr, w, e), finddef(62, arr, dend(arr, w, e), e)])(*sp(c)))
        con.tyover["std::string::String"] = ("z", I)
        con.tell = lambda c: ("parsed", "stripper_xml", models.ld(c.eng, c.st, c.a[1]), c.ret)
        con.uses = ("event::EventBuilder::build", "event::EventBuilder::add_weight", "event::EventBuilder::new")

    # ------------------------------------------------------------ LHEF
    KINDS = ["i32"] + ["any"] * 4 + ["double"] * 4
    NSEL, PICK = F("outgoing_before_line", AI, I, I, I, I), F("line_of_outgoing", AI, I, I, I, I)

    class Lhe:
        def __init__(self, arr, p, e):
            self.arr, self.e = arr, e
            self.t = TRIMMED(arr, p, e)
            self.nl = FINDC(z3.IntVal(10), arr, self.t, e)
            self.b = BLANKS(arr, S(self.nl + 1), e)
            nok, nend, nval = NUMS["u32"]
            self.nup_ok, self.nup = nok(arr, self.b, e), nval(arr, self.b, e)
            self.q1 = nend(arr, self.b, e)
            self.q2 = ANY_END(arr, self.q1, e)
            self.q3 = ENT["double"][1](arr, self.q2, e)
            self.wt = D(arr, self.q2, e)
            self.head = z3.And(self.nl < e, self.nup_ok, ANY_OK(arr, self.q1, e), ENT["double"][0](arr, self.q2, e))
            n = NLINES(arr, self.q3, e)
            # lines from the second on are looked at, at most as many as there are particles: numbers 1 to end - 1
            self.n = n
            self.end = z3.If(n < 1, n, z3.If(self.nup + 1 < n, self.nup + 1, n))

        def defs(self):
            arr, e = self.arr, self.e
            p = self.t
            return [finddef(10, arr, self.t, e), z3.Implies(self.nl < e, z3.And(blankdef(arr, S(self.nl + 1), e), numdef("u32", arr, self.b, e), anydef(arr, self.q1, e), entdef("double", arr, self.q2, e)))]

        def line(self, k):
            k = zi(k)
            return LSTART(self.arr, self.q3, self.e, k), LEND(self.arr, self.q3, self.e, k)

        def entries(self, k):
            """position of the first entry of the line, positions of the others, the end of the line"""
            s, t = self.line(k)
            b = BLANKS(self.arr, s, t)
            pos, end, _ = chainpos(self.arr, NUMS["i32"][1](self.arr, b, t), t, KINDS)
            return b, pos, t

        def status(self, k):
            b, pos, t = self.entries(k)
            return ENT["i32"][2](self.arr, pos[0], t)

        def pid(self, k):
            b, pos, t = self.entries(k)
            return NUMS["i32"][2](self.arr, b, t)

        def mom(self, k):
            b, pos, t = self.entries(k)
            return [D(self.arr, pos[i], t) for i in (8, 5, 6, 7)]

        def valid(self, k):
            b, pos, t = self.entries(k)
            oks = [ENT[x][0](self.arr, q, t) for x, q in zip(KINDS, pos)]
            return z3.And(NUMS["i32"][0](self.arr, b, t), oks[0], z3.Implies(self.status(k) == 1, z3.And(oks[1:])))

        def nsel(self, k):
            return NSEL(self.arr, self.q3, self.e, zi(k))

        def pick(self, j):
            return PICK(self.arr, self.q3, self.e, zi(j))

        def step(self, k):
            b, pos, t = self.entries(k)
            s, _ = self.line(k)
            o = self.status(k) == 1
            return z3.And(self.nsel(0) == 0, self.nsel(1) == 0, z3.Implies(zi(k) >= 1, self.nsel(zi(k) + 1) == self.nsel(k) + z3.If(o, z3.IntVal(1), z3.IntVal(0))), z3.Implies(z3.And(zi(k) >= 1, o), self.pick(self.nsel(k)) == zi(k)),
                          z3.Implies(s <= t, z3.And(blankdef(self.arr, s, t), numdef("i32", self.arr, b, t), *[entdef(x, self.arr, q, t) for x, q in zip(KINDS, pos)])))

    chainpos = formats.chainpos

    def lp(c):
        arr, p, e = txt(c, 1)
        return Lhe(arr, p, e), arr, p, e

    def lp_req(c):
        X, arr, p, e = lp(c)
        return [("a text", z3.And(0 <= p, p <= e, e < 2 ** 59))]

    def particle(X, o, j, k):
        pid, mom, _ = ns.out_at(o, j)
        return z3.And(pid == X.pid(k), *[x == y for x, y in zip(mom, X.mom(k))])

    def lp_inv(L):
        X, arr, p, e = lp(L.call)
        b = L.v("event")
        o = b.f[bO]
        it = L.it()
        i = zi(it.pos)
        i = S(i)
        j = fresh("j", I)
        L.lemma(X.step(i), X.step(S(i - 1)))
        return [("position", z3.And(X.head, 0 <= i, i <= X.end, z3.Or(i >= 1, X.n == 0))),
                ("lines so far", FA([j], z3.Implies(z3.And(1 <= j, j < i), X.valid(j)), [X.line(j)[1]])),
                ("particles so far", z3.And(0 <= X.nsel(i), X.nsel(i) <= i, zi(o.n) == X.nsel(i))),
                ("the j-th outgoing one is in a line before", FA([j], z3.Implies(z3.And(0 <= j, j < zi(o.n)), z3.And(1 <= X.pick(j), X.pick(j) < i)), [X.pick(j)])),
                ("each is the one of its line", FAany([j], z3.Implies(z3.And(0 <= j, j < zi(o.n)), particle(X, o, j, X.pick(j))), [ns.out_at(o, j)[0]] + ns.out_at(o, j)[1])),
                ("the weight", one_weight(b.f[bW], X.wt))]

    def lp_ens(c):
        X, arr, p, e = lp(c)
        j = fresh("j", I)
        ok = z3.And(X.head, FA([j], z3.Implies(z3.And(1 <= j, j < X.end), X.valid(j)), [X.line(j)[1]]))
        return record_ens(c, ok, X.wt, X.nsel(X.end), lambda k: X.pid(X.pick(k)), lambda k: X.mom(X.pick(k)))
    con = add("<io::Converter as lhef::LHEFParser>::parse_lhef", facts=lambda c: lp(c)[0].defs(), requires=lp_req, ensures=lp_ens, loops={0: LoopSpec(lp_inv)}, mods={"core::str::<impl str>::lines": m_lines})
    con.tyover["std::string::String"] = ("z", I)
    con.tell = lambda c: ("parsed", "lhef", models.ld(c.eng, c.st, c.a[1]), c.ret)
    con.uses = ("event::EventBuilder::build", "event::EventBuilder::add_weight", "event::EventBuilder::with_capacity", "event::EventBuilder::new")
    if "stripper_xml" in ns.FORMATS:
        xml()
    return cs
