"""stripper_xml.rs: how weights are scaled, found from all input files together."""
from contracts import formats
from contracts.common import *
from contracts.text import *
from contracts.formats import okv, isok, starts

ES = "stripper_xml::extract_scaling"
OPENS, READABLE = F("can_be_opened", I, B), F("first_bytes_can_be_read", I, B)
BYTES, NBYTES = F("first_bytes", I, AI), F("number_of_first_bytes", I, I)
XML_OK, NORM = F("first_tag_is_known", I, B), F("is_normalization", I, B)
NAME, SCALE, NEV = F("name_in_first_tag", I, I), F("scale_in_first_tag", I, R), F("events_in_first_tag", I, I)
AFTERW = F("after_ascii_white_space", AI, I, I, I)
AA = (AI, AI)      # inputs and outputs
NKEPT, KEPT = F("event_files_before", AI, I, I), F("kth_event_file", AI, I, I)
SEEN, LASTSC, TOTAL = F("has_contribution", AI, I, I, B), F("last_scale", AI, I, I, R), F("events_of_contribution", AI, I, I, I)


def contracts(crate, multi):
    cs = []
    if ES not in crate.bypath:
        return cs

    # ------------------------------------------------------------ util::trim_ascii_start
    def txt(c):
        return parts(models.ld(c.eng, c.st, c.a[0]))

    def tr_ens(c):
        arr, p, e = txt(c)
        r = models.ld(c.eng, c.st, c.ret)
        if isinstance(r, Agg) and not r.f:
            return [("nothing is left only of white space", AFTERW(arr, p, e) == e)]
        a2, p2, e2 = parts(r)
        return [("what follows the white space is left", z3.And(z3.Implies(p2 < e2, z3.And(a2 == arr, p2 == AFTERW(arr, p, e), e2 == e)), (p2 == e2) == (AFTERW(arr, p, e) == e), p2 <= e2))]

    def tr_ret(c):
        arr, p, e = txt(c)
        c.st.fact(skipdef(AFTERW, white, arr, p, e))
        return view(arr, AFTERW(arr, p, e), e)
    con = text(Contract("util::trim_ascii_start", requires=lambda c: [("a text", z3.And(0 <= txt(c)[1], txt(c)[1] <= txt(c)[2], txt(c)[2] < 2 ** 62))], ensures=tr_ens, returns=tr_ret, props=("C14",)))
    con.facts = lambda c: [skipdef(AFTERW, white, *txt(c))]
    cs.append(con)

    # ------------------------------------------------------------ extract_scaling
    XT = {v["n"]: i for i, v in enumerate(crate.adts["stripper_xml::XMLTag"]["variants"])}
    XF = {k: [f["n"] for f in crate.adts["stripper_xml::XMLTag"]["variants"][i]["f"]] for k, i in XT.items()}
    PAIR = ("agg", "tuple", [("z", I), ("z", I)])

    def m_asref(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        return [(st, v)] if isz(v) and v.sort() == I else NotImplemented

    def m_open(eng, st, a, info):
        p = zi(models.ld(eng, st, a[0]))
        return [(s, models.ok(Agg("file", [p])) if b else models.err(Opaque("io::Error"))) for s, b in models.fork(eng, st, OPENS(p))]

    def m_same(eng, st, a, info):
        return [(st, a[0])]

    def fileof(eng, st, v):
        v = models.ld(eng, st, v)
        while isinstance(v, Ptr):
            v = models.ld(eng, st, v)
        return zi(v.f[0]) if isinstance(v, Agg) and v.ty == "file" else None

    def m_fill(eng, st, a, info):
        p = fileof(eng, st, a[0])
        if p is None:
            return NotImplemented
        out = []
        for s, b in models.fork(eng, st, READABLE(p)):
            s.fact(0 <= NBYTES(p), NBYTES(p) < 2 ** 40)
            out.append((s, models.ok(SeqV(("z", I), [BYTES(p)], 0, NBYTES(p))) if b else models.err(Opaque("io::Error"))))
        return out

    def m_info(eng, st, a, info):
        """the first tag of a file, as read by quick_xml"""
        p = fileof(eng, st, a[0])
        if p is None:
            return NotImplemented
        val = {"name": NAME(p), "scale": SCALE(p), "nevents": NEV(p)}
        tag = lambda k: EnumV("stripper_xml::XMLTag", XT[k], {XT[k]: Agg("stripper_xml::XMLTag", [val[f] if f in val else fresh(f, I) for f in XF[k]])})
        out = []
        for s, b in models.fork(eng, st, XML_OK(p)):
            s.fact(0 <= NEV(p), NEV(p) < 2 ** 64)
            out += [(t, models.ok(tag("Normalization" if n else "Eventrecord"))) for t, n in models.fork(eng, s, NORM(p))] if b else [(s, models.err(Opaque("CreateError")))]
        return out

    def is_xml(p):
        t = AFTERW(BYTES(p), z3.IntVal(0), NBYTES(p))
        return z3.And(READABLE(p), at(BYTES(p), t, b"<?xml", NBYTES(p)))

    def setup(eng, st, b):
        n = fresh("number_of_files", I)
        st.fact(0 <= n, n < 2 ** 32)
        return [SeqV(PAIR, [fresh("inputs", AI), fresh("outputs", AI)], 0, n)]

    class X:
        def __init__(self, c):
            v = c.a[0]
            self.P, self.Q, self.n = v.lv[0], v.lv[1], zi(v.n)

        def p(self, i):
            return z3.Select(self.P, zi(i))

        def norm(self, i):
            return z3.And(is_xml(self.p(i)), NORM(self.p(i)))

        def good(self, i):
            return z3.And(OPENS(self.p(i)), z3.Implies(is_xml(self.p(i)), XML_OK(self.p(i))))

        def nk(self, i):
            return NKEPT(self.P, zi(i))

        def step(self, i):
            """the contributions after one more file"""
            i = zi(i)
            t = fresh("name", I)
            p = self.p(i)
            mine = z3.And(is_xml(p), NAME(p) == t)
            P = self.P
            return z3.And(NKEPT(P, z3.IntVal(0)) == 0, FAany([t], z3.And(z3.Not(SEEN(P, t, z3.IntVal(0))), LASTSC(P, t, z3.IntVal(0)) == -1, TOTAL(P, t, z3.IntVal(0)) == 0), [SEEN(P, t, z3.IntVal(0)), LASTSC(P, t, z3.IntVal(0)), TOTAL(P, t, z3.IntVal(0))]),
                          skipdef(AFTERW, white, BYTES(p), z3.IntVal(0), NBYTES(p)),
                          NKEPT(P, i + 1) == NKEPT(P, i) + z3.If(self.norm(i), z3.IntVal(0), z3.IntVal(1)), z3.Implies(z3.Not(self.norm(i)), KEPT(P, NKEPT(P, i)) == i),
                          FAany([t], z3.And(SEEN(P, t, i + 1) == z3.Or(SEEN(P, t, i), mine),
                                                LASTSC(P, t, i + 1) == z3.If(z3.And(mine, NORM(p)), SCALE(p), LASTSC(P, t, i)),
                                                TOTAL(P, t, i + 1) == TOTAL(P, t, i) + z3.If(z3.And(mine, z3.Not(NORM(p))), NEV(p), z3.IntVal(0))), [SEEN(P, t, i + 1), LASTSC(P, t, i + 1), TOTAL(P, t, i + 1)]))

    def req(c):
        x = X(c)
        t, i = fresh("t", I), fresh("i", I)
        return [("there are fewer than 2^63 events", z3.ForAll([t, i], z3.Implies(z3.And(0 <= i, i <= x.n), z3.And(0 <= TOTAL(x.P, t, i), TOTAL(x.P, t, i) < 2 ** 63)), patterns=[TOTAL(x.P, t, i)])),
                ("event counts", z3.ForAll([t], z3.And(0 <= NEV(t), NEV(t) < 2 ** 62), patterns=[NEV(t)]))]

    def files(x, v, i):
        k = fresh("k", I)
        return [("event files so far", z3.And(0 <= x.nk(i), x.nk(i) <= i, zi(v.n) == x.nk(i))),
                ("each is kept with its output", FAany([k], z3.Implies(z3.And(0 <= k, k < zi(v.n)), z3.And(0 <= KEPT(x.P, k), KEPT(x.P, k) < i, z3.Not(x.norm(KEPT(x.P, k))), sel(v, k).f[0] == x.p(KEPT(x.P, k)), sel(v, k).f[1] == z3.Select(x.Q, KEPT(x.P, k)))),
                                                   [sel(v, k).f[0], sel(v, k).f[1]]))]

    def inv(L):
        x = X(L.call)
        i = S(zi(L.it().pos))
        M = L.v("rescale")
        t, j = fresh("t", I), fresh("j", I)
        L.lemma(x.step(i), x.step(S(i - 1)))
        val = M.get([t])
        return [("position", z3.And(0 <= i, i <= x.n, zi(L.it().n) == x.n)),
                ("no error so far", FA([j], z3.Implies(z3.And(0 <= j, j < i), x.good(j)), [x.p(j)])),
                ("contributions so far", FA([t], M.has([t]) == SEEN(x.P, t, i), [M.has([t])])),
                ("nothing is known about others", FAany([t], z3.Implies(z3.Not(SEEN(x.P, t, i)), z3.And(LASTSC(x.P, t, i) == -1, TOTAL(x.P, t, i) == 0)), [LASTSC(x.P, t, i), TOTAL(x.P, t, i)])),
                ("their scales and numbers of events", FAany([t], z3.Implies(M.has([t]), z3.And(val.f[0] == LASTSC(x.P, t, i), val.f[1] == TOTAL(x.P, t, i))), [val.f[0], val.f[1]]))] + files(x, L.v("event_files"), i)

    def ens(c):
        x = X(c)
        r = c.ret
        j, t = fresh("j", I), fresh("t", I)
        s = isok(r)
        allgood = FA([j], z3.Implies(z3.And(0 <= j, j < x.n), x.good(j)), [x.p(j)])
        out = [("an error exactly if a file cannot be opened or its header cannot be understood", s == allgood)]
        if okv(r) is None:
            return out
        v, M = okv(r).f
        out += [(l, z3.Implies(s, g)) for l, g in files(x, v, x.n)]
        out += [("every contribution gets a scale", z3.Implies(s, FA([t], M.has([t]) == SEEN(x.P, t, x.n), [M.has([t])]))),
                ("the normalisation divided by the number of events in all files", z3.Implies(s, FA([t], z3.Implies(z3.And(M.has([t]), TOTAL(x.P, t, x.n) > 0), M.get([t]) == LASTSC(x.P, t, x.n) / z3.ToReal(TOTAL(x.P, t, x.n))), [M.get([t])])))]
        return out
    con = text(Contract(ES, requires=req, ensures=ens, setup=setup, loops={0: LoopSpec(inv)}, props=("C14",)),
               **{"std::convert::AsRef::as_ref": m_asref, "std::fs::File::open": m_open, "std::io::BufReader::<R>::new": m_same, "audec::auto_decompress": m_same,
                  "std::io::BufRead::fill_buf": m_fill, "alloc::io::impls::<impl std::io::BufRead for std::boxed::Box<B, A>>::fill_buf": m_fill,
                  "stripper_xml::extract_xml_info": m_info, "std::borrow::ToOwned::to_owned": m_asref, "std::path::Path::to_owned": m_asref})
    con.tyover.update({"std::string::String": ("z", I), "P": ("z", I), "Q": ("z", I)})
    con.uses = ("util::trim_ascii_start",)
    con.divzero = True
    cs.append(con)
    return cs
