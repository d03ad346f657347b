"""hepmc2.rs: a whole record is parsed line by line; weights have names."""
from contracts import formats
from contracts.common import *
from contracts.text import *
from contracts.formats import okv, isok, starts
from contracts.building import pidval

TOK = F("text_as_name", AI, I, I, I)                       # equal texts are the same name
STR_OK, STR_FROM, STR_TO = F("is_quoted_entry", AI, I, I, B), F("start_of_quoted", AI, I, I, I), F("end_of_quoted", AI, I, I, I)
SAFTER = F("after_quoted_entries", AI, I, I, I, I)
WANTED, WHICH = F("is_wanted", AI, I, I, B), F("wanted_as", AI, I, I, I)
NSEL = F("wanted_before", AI, I, I, AI, I, I, I)           # how many of the first i names of a line are wanted
PICK = F("kth_wanted", AI, I, I, AI, I, I, I)              # which name of a line is the k-th that is wanted


def strdef(arr, p, e):
    """blanks, then a text in quotes"""
    b = BLANKS(arr, p, e)
    q = FINDC(z3.IntVal(34), arr, b + 1, e)
    return z3.And(blankdef(arr, p, e), z3.Implies(b + 1 <= e, finddef(34, arr, S(b + 1), e)),
                  STR_OK(arr, p, e) == z3.And(b > p, b < e, z3.Select(arr, b) == 34, b + 1 <= e, q < e), STR_FROM(arr, p, e) == b + 1, STR_TO(arr, p, e) == q)


def wantdef(N, n):
    """being one of the wanted names"""
    t, j = fresh("t", I), fresh("j", I)
    return z3.And(z3.ForAll([t], z3.Implies(WANTED(N, n, t), z3.And(0 <= WHICH(N, n, t), WHICH(N, n, t) < n, z3.Select(N, WHICH(N, n, t)) == t)), patterns=[WANTED(N, n, t)]),
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), WANTED(N, n, z3.Select(N, j))), patterns=[z3.Select(N, j)]))


FEWER = F("fewer_of", I, I, I)


def fewerdef():
    a, b = fresh("a", I), fresh("b", I)
    return z3.ForAll([a, b], FEWER(a, b) == z3.If(a < b, a, b), patterns=[FEWER(a, b)])


class Names:
    """the names in a line whose first letter is at p, of which m count, and the wanted names"""
    def __init__(self, arr, p, e, N, n):
        self.arr, self.p, self.e, self.N, self.n = arr, p, e, N, zi(n)
        self.w = ENT["u32"][1](arr, S(p + 1), e)
        self.nn = ENT["u32"][2](arr, S(p + 1), e)

    def at(self, i):
        return SAFTER(self.arr, self.w, self.e, zi(i))

    def tok(self, i):
        q = self.at(i)
        return TOK(self.arr, STR_FROM(self.arr, q, self.e), STR_TO(self.arr, q, self.e))

    def there(self, i):
        return STR_OK(self.arr, self.at(i), self.e)

    def wanted(self, i):
        return WANTED(self.N, self.n, self.tok(i))

    def nsel(self, i):
        return NSEL(self.arr, self.p, self.e, self.N, self.n, zi(i))

    def pick(self, k):
        return PICK(self.arr, self.p, self.e, self.N, self.n, zi(k))

    def m(self, nw):
        return FEWER(self.nn, zi(nw))

    def allthere(self, m):
        i = fresh("i", I)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), self.there(i)), patterns=[self.at(i)])

    def found(self, m):
        """every wanted name is among the first m"""
        t, i = fresh("t", I), fresh("i", I)
        return z3.ForAll([t], z3.Implies(WANTED(self.N, self.n, t), z3.Exists([i], z3.And(0 <= i, i < m, self.tok(i) == t))), patterns=[WANTED(self.N, self.n, t)])

    def step(self, i):
        """definitions at i"""
        i = zi(i)
        q = self.at(i)
        return z3.And(fewerdef(), entdef("u32", self.arr, S(self.p + 1), self.e), self.at(0) == self.w, self.nsel(0) == 0, strdef(self.arr, q, self.e),
                      self.at(i + 1) == STR_TO(self.arr, q, self.e) + 1,
                      self.nsel(i + 1) == self.nsel(i) + z3.If(self.wanted(i), z3.IntVal(1), z3.IntVal(0)),
                      z3.Implies(z3.And(0 <= i, self.wanted(i)), self.pick(self.nsel(i)) == i))


NL_OK = F("is_names_line", AI, I, I, AI, I, I, B)


def namesok(S_, nw):
    """the line is acceptable with nw weights"""
    ok = NL_OK(S_.arr, S_.p, S_.e, S_.N, S_.n, zi(nw))
    m = S_.m(nw)
    d = ok == z3.And(ENT["u32"][0](S_.arr, S(S_.p + 1), S_.e), S_.allthere(m), S_.found(m))
    return ok, d


# ---------------------------------------------------------------- models for the map of wanted names
def m_collect(eng, st, a, info):
    ts = info.targs
    if not (ts and ts[-1].get("k") == "adt" and ts[-1]["p"] == "std::collections::HashMap"):
        return NotImplemented
    st = st.copy()
    return [(st, models.map_extend(eng, st, models.empty_map(("z", I), ("z", B), "hash"), models.to_it(eng, st, a[0]), True))]


def token(eng, st, v):
    """a text as a name"""
    v = models.ld(eng, st, v)
    if isinstance(v, SeqV):
        arr, p, e = parts(v)
        return TOK(arr, p, e)
    return zi(v)


def m_get_mut(eng, st, a, info):
    p = a[0]
    v = eng.load(st, p)
    if not isinstance(v, MapV):
        return NotImplemented
    k = [token(eng, st, a[1])]
    return [(s, models.some(eng.canon(p, ("m", k))) if b else models.none()) for s, b in models.fork(eng, st, v.has(k))]


def m_mapiter(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, Agg("map entries", [v]))] if isinstance(v, MapV) else NotImplemented


def m_find_map(eng, st, a, info):
    """what the closure makes of some entry of a map of booleans, if it gives something for any"""
    x = models.ld(eng, st, a[0])
    if not (isinstance(x, Agg) and x.ty == "map entries" and x.f[0].sh == ("z", B)):
        return NotImplemented
    v = x.f[0]
    t = fresh("entry", I)
    res = {}
    for b in (False, True):
        rs = eng.apply(st.copy(), a[1], [Agg("tuple", [t, z3.BoolVal(b)])])
        if len(rs) != 1 or cint(rs[0][1].d) is None:
            raise Unsupported("search in a map")
        res[b] = rs[0][1]
    hit = [b for b in res if cint(res[b].d) == 1]
    k = fresh("k", I)
    st, bad = st.copy(), st.copy()
    is_hit = lambda q: z3.Or([zb(v.get([q])) == b for b in hit]) if hit else z3.BoolVal(False)
    st.branch(z3.ForAll([k], z3.Implies(v.has([k]), z3.Not(is_hit(k))), patterns=[v.has([k])]))
    out = [(st, models.none())]
    for b in hit:
        s = bad.copy()
        s.branch(z3.And(v.has([t]), zb(v.get([t])) == b))
        out.append((s, res[b]))
    return out


def contracts(crate, multi):
    cs0, ns = formats.build(crate, multi)
    cs = []
    P = ("C13",)

    def add(path, facts=None, mods=None, **kw):
        con = text(Contract(path, props=P, **kw), **(mods or {}))
        if facts:
            con.facts = facts
        cs.append(con)
        return con

    def txt(c, i=0):
        return parts(models.ld(c.eng, c.st, c.a[i]))

    BF = [f["n"] for f in crate.adts["event::EventBuilder"]["variants"][0]["f"]]
    bW, bO = BF.index("weights"), BF.index("outgoing_by_pid")
    iP = ns.iP

    # ------------------------------------------------------------ quoted names
    if multi:
        def se_req(c):
            _, p, e = txt(c)
            return [("a text", z3.And(0 <= p, p <= e, e < 2 ** 60))]

        def se_ens(c):
            arr, p, e = txt(c)
            r = c.ret
            out = [("succeeds exactly if there is a name in quotes", isok(r) == STR_OK(arr, p, e))]
            if okv(r) is not None:
                a2, p2, e2 = parts(okv(r).f[0])
                a3, p3, e3 = parts(okv(r).f[1])
                f, t = STR_FROM(arr, p, e), STR_TO(arr, p, e)
                out.append(("the name and what follows its closing quote", z3.Implies(isok(r), z3.And(a2 == arr, p2 == t + 1, e2 == e, a3 == arr, p3 == f, e3 == t, p < f, f <= t, t < e))))
            return out

        def se_ret(c):
            arr, p, e = txt(c)
            c.st.fact(strdef(arr, p, e))
            f, t = STR_FROM(arr, p, e), STR_TO(arr, p, e)
            return result([(s, (S(t + 1), view(arr, f, t)) if b else None) for s, b in models.fork(c.eng, c.st, STR_OK(arr, p, e))], arr, e)
        add("hepmc2::string_entry", facts=lambda c: [strdef(*txt(c))], requires=se_req, ensures=se_ens, returns=se_ret)
        def nl(c):
            arr, p, e = txt(c, 1)
            conv = models.ld(c.eng, c.st, c.a[0])
            N = conv.f[0]
            if not is0(N.off):
                raise Unsupported("part of a list of names")
            return Names(arr, p, e, N.lv[0], N.n), models.ld(c.eng, c.st, c.a[2])

        def nl_req(c):
            X, ws = nl(c)
            o = c.old(3)
            return [("a line of its kind", z3.And(0 <= X.p, X.e < 2 ** 60, starts(X.arr, X.p, X.e, "N"))), ("lists", z3.And(0 <= X.n, X.n < 2 ** 60, 0 <= zi(ws.n), zi(ws.n) < 2 ** 60)),
                    ("memory", z3.And(0 <= zi(o.f[bW].n), zi(o.f[bW].n) < 2 ** 61, 0 <= zi(o.f[bO].n)))]

        def same_parts(o1, o0):
            return z3.And(zi(o1.n) == zi(o0.n), ns.kept_out(o1, o0))

        def added(X, ws, w1, w0, m):
            """the weights of wanted names among the first m are added in order"""
            k = fresh("k", I)
            el = lambda w, q: sel(w, q) if not isinstance(sel(w, q), Agg) else sel(w, q).f[0]
            return [("number of weights", zi(w1.n) == zi(w0.n) + X.nsel(m)),
                    ("weights read before are kept", FA([k], z3.Implies(z3.And(0 <= k, k < zi(w0.n)), el(w1, k) == el(w0, k)), [el(w1, k)])),
                    ("the k-th wanted name is preceded by k wanted ones", FA([k], z3.Implies(z3.And(0 <= k, k < X.nsel(m)), z3.And(0 <= X.pick(k), X.pick(k) < m, X.wanted(X.pick(k)), X.nsel(X.pick(k)) == k)), [X.pick(k)])),
                    ("each wanted name's weight, in order", FA([k], z3.Implies(z3.And(zi(w0.n) <= k, k < zi(w0.n) + X.nsel(m)), el(w1, k) == el(ws, X.pick(k - zi(w0.n)))), [el(w1, k)]))]

        def nl_ens(c):
            X, ws = nl(c)
            b0, b1 = c.old(3), c.new(3)
            r = c.ret
            ok, d = namesok(X, ws.n)
            c.lemma(d)
            m = X.m(ws.n)
            s = isok(r)
            some = X.n > 0
            out = [("accepted exactly if all names are there and none that is wanted is missing", s == z3.Or(X.n == 0, ok)),
                   ("particles are kept", z3.Implies(s, same_parts(b1.f[bO], b0.f[bO]))),
                   ("no weight is added if none is wanted", z3.Implies(z3.And(s, X.n == 0), ns.same_w(b1.f[bW], b0.f[bW])))]
            out += [(l, z3.Implies(z3.And(s, some), g)) for l, g in added(X, ws, b1.f[bW], b0.f[bW], m)]
            out.append(("no more weights than letters", z3.Implies(z3.And(s, some), z3.And(0 <= X.nsel(m), X.nsel(m) <= X.at(m) - X.p))))
            if okv(r) is not None:
                a2, p2, e2 = parts(okv(r))
                out.append(("the rest", z3.Implies(s, z3.And(a2 == X.arr, p2 == z3.If(some, X.at(m), X.p), e2 == X.e, X.p <= p2, p2 <= X.e))))
            return out

        def nl_inv(L):
            X, ws = nl(L.call)
            b0, b1 = L.call.old(3), L.v("event")
            it = L.it()
            i = zi(it.pos)
            arr, p, e = parts(L.v("record"))
            M = L.v("weight_seen")
            t, j = fresh("t", I), fresh("j", I)
            L.lemma(X.step(i), X.step(i - 1), X.step(X.m(ws.n) - 1))
            return [("position", z3.And(0 <= i, i <= zi(it.n), zi(it.n) == X.m(ws.n), ENT["u32"][0](X.arr, S(X.p + 1), X.e), X.n > 0)),
                    ("cursor", z3.And(arr == X.arr, e == X.e, p == X.at(i), X.p + i < p, p <= e)),
                    ("names so far", FA([j], z3.Implies(z3.And(0 <= j, j < i), X.there(j)), [X.at(j)])),
                    ("the map has the wanted names", FAany([t], M.has([t]) == WANTED(X.N, X.n, t), [M.has([t]), WANTED(X.N, X.n, t)])),
                    ("names found", z3.And(FA([j], z3.Implies(z3.And(0 <= j, j < i, X.wanted(j)), zb(M.get([X.tok(j)]))), [X.tok(j)]),
                                           FA([t], z3.Implies(z3.And(M.has([t]), zb(M.get([t]))), z3.Exists([j], z3.And(0 <= j, j < i, X.tok(j) == t))), [zb(M.get([t]))]))),
                    ("count", z3.And(0 <= X.nsel(i), X.nsel(i) <= i)),
                    ("particles are kept", same_parts(b1.f[bO], b0.f[bO]))] + added(X, ws, b1.f[bW], b0.f[bW], i)

        def nl_ret(c):
            X, ws = nl(c)
            ok, d = namesok(X, ws.n)
            c.st.fact(d, X.step(0))
            res = []
            for s, some in models.fork(c.eng, c.st, X.n > 0):
                q = X.at(X.m(ws.n)) if some else X.p
                res += [(t, models.ok(view(X.arr, q, X.e)) if b else models.err(Opaque("ReadError"))) for t, b in models.fork(c.eng, s, z3.Or(X.n == 0, ok))]
            return res
        con = add("hepmc2::parse_weight_names_line", facts=lambda c: [wantdef(nl(c)[0].N, nl(c)[0].n), nl(c)[0].step(0)], requires=nl_req, ensures=nl_ens, returns=nl_ret, modifies={3: [()]}, loops={0: LoopSpec(nl_inv)},
                  mods={"std::iter::Iterator::collect": m_collect, "std::collections::HashMap::<K, V, S, A>::get_mut": m_get_mut, "std::iter::IntoIterator::into_iter": m_mapiter, "std::iter::Iterator::find_map": m_find_map})
        con.tyover["std::string::String"] = ("z", I)
        con.tyover["std::collections::HashMap"] = ("map", ("z", I), ("z", B), "hash")
        con.uses = ("event::EventBuilder::add_weight",)

        # ------------------------------------------------------------ weights with names are written back
        NUMTOK = F("number_as_word", R, I)
        NWORDS, WFROM, WTO = F("number_of_words", AI, I, I, I), F("start_of_word", AI, I, I, I, I), F("end_of_kth_word", AI, I, I, I, I)
        JTXT, JLEN = F("words_joined_by_blanks", AI, I, AI), F("length_of_joined_words", AI, I, I)

        def worddefs(arr, p, e):
            """words are separated by white space"""
            k = fresh("k", I)
            f, t = WFROM(arr, p, e, k), WTO(arr, p, e, k)
            return z3.And(0 <= NWORDS(arr, p, e), NWORDS(arr, p, e) <= e - p,
                          z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NWORDS(arr, p, e)), z3.And(p <= f, f < t, t <= e)), patterns=[f, t]))

        def word_at(arr, p, e, k):
            return TOK(arr, WFROM(arr, p, e, k), WTO(arr, p, e, k))

        def m_words(eng, st, a, info):
            arr, p, e = parts(models.ld(eng, st, a[0]))
            st = st.copy()
            A = fresh("words", AI)
            k = fresh("k", I)
            st.fact(worddefs(arr, p, e), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NWORDS(arr, p, e)), z3.Select(A, k) == word_at(arr, p, e, k)), patterns=[z3.Select(A, k)]))
            return [(st, models.to_it(eng, st, SeqV(("z", I), [A], 0, NWORDS(arr, p, e))))]

        def m_join(eng, st, a, info):
            v, sep = models.ld(eng, st, a[0]), literal(models.ld(eng, st, a[1]))
            if not (isinstance(v, SeqV) and v.sh == ("z", I) and len(v.lv) == 1 and is0(v.off)) or not sep or sep.strip(b" \t"):
                return NotImplemented
            st = st.copy()
            n = JLEN(v.lv[0], zi(v.n))
            st.fact(0 <= n, n < 2 ** 61)
            return [(st, SeqV(("z", I), [JTXT(v.lv[0], zi(v.n))], 0, n))]

        def joinsame(A, B_, n):
            """the joined text depends on the words only"""
            k = fresh("k", I)
            return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(A, k) == z3.Select(B_, k))), z3.And(JTXT(A, n) == JTXT(B_, n), JLEN(A, n) == JLEN(B_, n)))

        def m_word_text(eng, st, a, info):
            v = models.ld(eng, st, a[0])
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, SeqV):
                return [(st, v)]
            if isz(v) and v.sort() == R:
                return [(st, NUMTOK(v))]
            return [(st, v)] if isz(v) and v.sort() == I else NotImplemented

        def m_name_eq(eng, st, a, info):
            vs = [models.ld(eng, st, x) for x in a[:2]]
            if not all(isinstance(v, SeqV) or (isz(v) and v.sort() == I) for v in vs) or all(isinstance(v, SeqV) for v in vs):
                return NotImplemented
            x, y = (token(eng, st, v) for v in vs)
            return [(st, x == y)]

        def un_setup(eng, st, b):
            args = default_args(eng, st, b, eng.building)
            n = fresh("length", I)
            st.fact(n >= 0)
            st.store[args[0].root] = SeqV(("z", I), [fresh("record", AI)], 0, n)
            return args
        iW = [f["n"] for f in crate.adts["event::Weights"]["variants"][0]["f"]].index("0")

        class Up:
            """a record whose weights start at s, of which nw are there"""
            def __init__(self, c):
                self.old = c.old(0)
                self.arr, self.p, self.e = parts(self.old)
                self.s, self.nw = zi(c.a[1]), zi(c.a[2])
                N = models.ld(c.eng, c.st, c.a[3])
                self.w = models.ld(c.eng, c.st, c.a[4]).f[iW]
                self.N, self.n, self.off = N.lv[0], zi(N.n), zi(N.off)
                if not is0(N.off):
                    raise Unsupported("part of a list of names")
                self.q = fneedle(b"\nN")(self.arr, self.p, self.e)
                self.X = Names(self.arr, S(self.q + 1), self.e, self.N, self.n)
                self.b = S(self.p + self.s)
                self.end = FINDC(z3.IntVal(10), self.arr, S(self.b + 1), self.e)

            def val(self, k):
                x = sel(self.w, k)
                return x.f[0] if isinstance(x, Agg) else x

            def new(self, k, j):
                """the k-th word after j of the wanted weights have been replaced"""
                X = self.X
                return z3.If(z3.And(k < X.nn, X.wanted(k), X.nsel(k) < j), NUMTOK(self.val(1 + X.nsel(k))), word_at(self.arr, self.b, self.e, k))

            def good(self):
                return z3.And(self.q < self.e, ENT["u32"][0](self.arr, S(self.X.p + 1), self.e), self.X.allthere(self.X.nn))

            def pickdef(self):
                i = fresh("i", I)
                X = self.X
                return z3.ForAll([i], z3.Implies(z3.And(0 <= i, X.wanted(i)), X.pick(X.nsel(i)) == i), patterns=[X.nsel(i)])

            def defs(self):
                return [findtext(b"\nN", self.arr, self.p, self.e), finddef(10, self.arr, S(self.b + 1), self.e), worddefs(self.arr, self.b, self.e), wantdef(self.N, self.n), self.X.step(0), self.pickdef()]

        def un_req(c):
            U = Up(c)
            k = fresh("k", I)
            X = U.X
            out = [("a text", z3.And(0 <= U.p, U.p <= U.e, U.e < 2 ** 59)), ("lists", z3.And(0 <= U.n, U.n < 2 ** 60, 0 <= U.s, U.s <= U.e - U.p, 0 <= U.nw, U.nw < 2 ** 32)),
                    ("the weights are in the first line", z3.ForAll([k], z3.Implies(z3.And(U.p <= k, k <= U.b, k < U.e), z3.Select(U.arr, k) != 10), patterns=[z3.Select(U.arr, k)])),
                    ("all weights are there", z3.And(NWORDS(U.arr, U.b, U.e) >= U.nw)),
                    ("wanted names are those of weights", FA([k], z3.Implies(z3.And(0 <= k, k < X.nn, X.wanted(k)), k < U.nw), [X.nsel(k)])),
                    ("there is a new weight for each wanted name", z3.Implies(z3.And(U.n > 0, U.good()), zi(U.w.n) == 1 + X.nsel(X.nn)))]
            # without wanted names nothing is done
            return [(l, z3.Implies(U.n > 0, g)) for l, g in out]

        def un_ens(c):
            U = Up(c)
            r = c.ret
            s = isok(r)
            new = c.new(0)
            X = U.X
            k = fresh("k", I)
            A = fresh("words_wanted", AI)
            T = SeqV(("z", I), [JTXT(A, U.nw)], 0, JLEN(A, U.nw))
            spec = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < U.nw), z3.Select(A, k) == U.new(k, X.nsel(X.nn))), patterns=[z3.Select(A, k)])
            js = [t for t in [c.st.trace] for t in t if t[0] == "joined"]
            c.lemma(spec, *[joinsame(t[1], A, U.nw) for t in js])
            out = [("accepted exactly if there are names, or none is wanted", s == z3.Or(U.n == 0, U.good())),
                   ("no name, no change", z3.Implies(z3.And(s, U.n == 0), z3.And(zi(new.n) == zi(U.old.n), new.lv[0] == U.arr)))]
            some = z3.And(s, U.n > 0)
            out += [("the weights of wanted names and nothing else is replaced: " + l, z3.Implies(some, g)) for l, g in spliced(new, U.old, S(U.s + 1), S(U.end - U.p), T)]
            return out

        def names_inv(L):
            U = Up(L.call)
            X = U.X
            it = L.it()
            i = zi(it.pos)
            arr, p, e = parts(L.v("rest"))
            P_ = L.v("weight_pos")
            k, j = fresh("k", I), fresh("j", I)
            L.lemma(X.step(i), X.step(i - 1), X.step(X.nn - 1))
            return [("position", z3.And(0 <= i, i <= zi(it.n), zi(it.n) == X.nn, U.q < U.e, U.n > 0, ENT["u32"][0](X.arr, S(X.p + 1), X.e))),
                    ("cursor", z3.And(arr == X.arr, e == X.e, p == X.at(i), X.p + i < p, p <= e)),
                    ("names so far", FA([j], z3.Implies(z3.And(0 <= j, j < i), X.there(j)), [X.at(j)])),
                    ("count", z3.And(0 <= X.nsel(i), X.nsel(i) <= i, zi(P_.n) == X.nsel(i))),
                    ("counts so far", FA([j], z3.Implies(z3.And(0 <= j, j < i), z3.And(0 <= X.nsel(j), X.nsel(j) <= X.nsel(i), z3.Implies(X.wanted(j), X.nsel(j) < X.nsel(i)))), [X.nsel(j)])),
                    ("positions of wanted names so far", FA([k], z3.Implies(z3.And(0 <= k, k < zi(P_.n)), z3.And(sel(P_, k) == X.pick(k), 0 <= X.pick(k), X.pick(k) < i, X.wanted(X.pick(k)), X.nsel(X.pick(k)) == k)), [sel(P_, k)]))]

        def words_inv(L):
            U = Up(L.call)
            X = U.X
            it = L.it()
            j = zi(it.pos)
            W = L.v("weight_entries")
            k = fresh("k", I)
            return [("position", z3.And(0 <= j, j <= zi(it.n), zi(it.n) == X.nsel(X.nn))),
                    ("words so far", z3.And(zi(W.n) == U.nw, FA([k], z3.Implies(z3.And(0 <= k, k < U.nw), sel(W, k) == U.new(k, j)), [sel(W, k)])))]

        def m_joined(eng, st, a, info):
            r = m_join(eng, st, a, info)
            if r is NotImplemented:
                return r
            s, v = r[0]
            s.trace = s.trace + (("joined", models.ld(eng, st, a[0]).lv[0]),)
            return [(s, v)]
        con = add("hepmc2::update_named_weights", facts=lambda c: Up(c).defs(), requires=un_req, ensures=un_ens, modifies={0: [()]}, setup=un_setup, loops={0: LoopSpec(names_inv), 1: LoopSpec(words_inv)},
                  mods={"core::str::<impl str>::split_ascii_whitespace": m_words, "std::slice::<impl [T]>::join": m_joined, "std::string::ToString::to_string": m_word_text,
                        "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq": m_name_eq, "std::cmp::PartialEq::eq": m_name_eq})
        con.tyover["std::string::String"] = ("z", I)

    # ------------------------------------------------------------ the record, line by line
    ARGS = (AI, I, AI, I, I)      # text and its end, wanted names, number of weights
    LINE = F("kth_outgoing_line", *ARGS, I, I, I)
    NOUT = F("number_of_outgoing_lines", *ARGS, I, I)
    LOK = F("lines_are_valid", *ARGS, I, B)
    INGEV = F("in_gev_after", *ARGS, I, B, B)
    NAMED = F("has_names_line", *ARGS, I, B)
    NWT = F("number_of_named_weights", *ARGS, I, I)
    WT = F("kth_named_weight", *ARGS, I, I, I)

    class Rec:
        """the lines of a record after its first; a line is given by the position of the line break in front of it"""
        def __init__(self, arr, e, N, n, nw):
            self.arr, self.e, self.N, self.n, self.nw = arr, e, N, zi(n), zi(nw)
            self.args = (arr, e, N, self.n, self.nw)

        def f(self, F_, *a):
            return F_(*self.args, *a)

        def names(self, q):
            return Names(self.arr, S(q + 1), self.e, self.N, self.n)

        def isnames(self, q):
            return self.letter(q, "N")

        def letter(self, q, ch):
            return starts(self.arr, q + 1, self.e, ch)

        def next(self, q):
            """the line break after the line"""
            s = q + 1
            if multi:
                X = self.names(q)
                s = z3.If(z3.And(self.isnames(q), self.n > 0), X.at(X.m(self.nw)), s)
            return FINDC(z3.IntVal(10), self.arr, s, self.e)

        def outgoing(self, q):
            return z3.And(self.letter(q, "P"), ns.status(self.arr, S(q + 1), self.e) == 1)

        def valid(self, q):
            s = S(q + 1)
            _, _, pok = ns.pl(self.arr, s, self.e)
            nok = z3.BoolVal(True)
            if multi:
                nok = z3.Or(self.n == 0, namesok(self.names(q), self.nw)[0])
            known = z3.Or([self.letter(q, ch) for ch in "VFHC"])
            return z3.If(known, z3.BoolVal(True), z3.If(self.letter(q, "N"), nok, z3.If(self.letter(q, "P"), pok, z3.If(self.letter(q, "U"), ns.pu_ok(self.arr, s, self.e),
                         TRIMMED(self.arr, s, self.e) == self.e))))

        def added(self, q):
            """number of weights a line gives"""
            if not multi:
                return z3.IntVal(0)
            X = self.names(q)
            return z3.If(z3.And(self.isnames(q), self.n > 0), X.nsel(X.m(self.nw)), z3.IntVal(0))

        def defs(self, q):
            """what follows from the line break at q on"""
            k, b = fresh("k", I), fresh("b", B)
            nx = self.next(q)
            one = z3.If(self.outgoing(q), z3.IntVal(1), z3.IntVal(0))
            end = q >= self.e
            f = self.f
            out = [f(NOUT, q) == z3.If(end, z3.IntVal(0), one + f(NOUT, nx)),
                   z3.ForAll([k], z3.Implies(z3.Not(end), f(LINE, q, k) == z3.If(z3.And(self.outgoing(q), k == 0), S(q + 1), f(LINE, nx, k - one))), patterns=[f(LINE, q, k)]),
                   f(LOK, q) == z3.If(end, z3.BoolVal(True), z3.And(self.valid(q), f(LOK, nx))),
                   z3.And([f(INGEV, q, z3.BoolVal(x)) == z3.If(end, z3.BoolVal(x), z3.If(self.letter(q, "U"), z3.If(ns.unit_is(self.arr, S(q + 1), self.e, "GEV"), f(INGEV, nx, z3.BoolVal(True)), f(INGEV, nx, z3.BoolVal(False))), f(INGEV, nx, z3.BoolVal(x)))) for x in (True, False)])]
            if multi:
                X = self.names(q)
                add_ = self.added(q)
                out += [f(NAMED, q) == z3.If(end, z3.BoolVal(False), z3.Or(self.isnames(q), f(NAMED, nx))),
                        f(NWT, q) == z3.If(end, z3.IntVal(0), add_ + f(NWT, nx)),
                        z3.ForAll([k], z3.Implies(z3.Not(end), f(WT, q, k) == z3.If(k < add_, X.pick(k), f(WT, nx, k - add_))), patterns=[f(WT, q, k)])]
            return out

    def rec(c):
        arr, p, e = txt(c, 1)
        if multi:
            N = models.ld(c.eng, c.st, c.a[0]).f[0]
            if not is0(N.off):
                raise Unsupported("part of a list of names")
            N, n = N.lv[0], N.n
        else:
            N, n = z3.Const("no_names", AI), z3.IntVal(0)
        R_ = Rec(arr, e, N, n, ns.ew_pos(arr, p, e)[1])
        c0 = ns.ew_end(arr, p, e)
        return R_, arr, p, e, c0, FINDC(z3.IntVal(10), arr, c0, e)

    def gev(u):
        return zi(u.d) == ns.EU["GeV"]

    def ing(R_, q, b):
        return z3.If(b, R_.f(INGEV, q, z3.BoolVal(True)), R_.f(INGEV, q, z3.BoolVal(False)))

    def num(x):
        while isinstance(x, Agg):
            x = x.f[0]
        return x

    def wlist(R_, arr, p, e, w, q0, n1):
        """the central weight, then the weights of wanted names"""
        k = fresh("k", I)
        if not multi:
            return [("the weight of the record", num(w) == ns.wat(arr, p, e, 0))]
        return [("the central weight comes first", z3.And(zi(w.n) >= 1, num(sel(w, 0)) == ns.wat(arr, p, e, 0))),
                ("then the weights of wanted names in their order", FA([k], z3.Implies(z3.And(1 <= k, k < zi(w.n)), z3.And(0 <= R_.f(WT, q0, k - 1), R_.f(WT, q0, k - 1) < R_.nw, num(sel(w, k)) == ns.wat(arr, p, e, R_.f(WT, q0, k - 1)))), [num(sel(w, k))]))]

    def ph_inv(L):
        R_, arr, p, e, c0, q0 = rec(L.call)
        b = L.v("event")
        o = b.f[bO]
        a1, c1, e1 = parts(L.v("record"))
        u = gev(L.v("energy_unit"))
        q = FINDC(z3.IntVal(10), arr, c1, e)
        f = R_.f
        k, j = fresh("k", I), fresh("j", I)
        L.lemma(finddef(10, arr, c1, e), finddef(10, arr, c0, e), *R_.defs(q))
        if L.st is not L.head and hasattr(L.head, "store"):
            try:
                _, ch, _ = parts(L._val(L.head, "record"))
                qh = FINDC(z3.IntVal(10), arr, ch, e)
                L.lemma(*R_.defs(qh))
                nxs = [S(qh + 1)]
                L.lemma(finddef(10, arr, S(qh + 1), e))
            except Unsupported:
                pass
        out = [("cursor", z3.And(a1 == arr, e1 == e, c0 <= c1, c1 <= e, ns.W_OK(arr, p, e), p < c0)),
               ("particles so far", z3.And(0 <= zi(o.n), zi(o.n) <= c1, zi(o.n) + f(NOUT, q) == f(NOUT, q0))),
               ("particles to come", z3.ForAll([k], z3.Implies(k >= zi(o.n), f(LINE, q0, k) == f(LINE, q, k - zi(o.n))), patterns=[f(LINE, q0, k)])),
               ("each outgoing particle is the one of its line", FAany([j], z3.Implies(z3.And(0 <= j, j < zi(o.n)), ns.particle(arr, f(LINE, q0, j), e, o, j)), [pidval(sel(o, j).f[0])] + ns.out_at(o, j)[1])),
               ("validity", f(LOK, q0) == f(LOK, q)),
               ("units", f(INGEV, q0, z3.BoolVal(True)) == ing(R_, q, u))]
        w = b.f[bW]
        if multi:
            out += [("named weights so far", z3.And(1 <= zi(w.n), zi(w.n) <= 1 + c1, zi(w.n) - 1 + f(NWT, q) == f(NWT, q0))),
                    ("named weights to come", z3.ForAll([k], z3.Implies(k >= zi(w.n) - 1, f(WT, q0, k) == f(WT, q, k - zi(w.n) + 1)), patterns=[f(WT, q0, k)])),
                    ("names", z3.Or(R_.n == 0, f(NAMED, q0)) == z3.Or(zb(L.v("found_names")), f(NAMED, q)))]
        return out + wlist(R_, arr, p, e, w, q0, None)

    def ph_ens(c):
        R_, arr, p, e, c0, q0 = rec(c)
        r = c.ret
        f = R_.f
        s = isok(r)
        good = [ns.W_OK(arr, p, e), f(LOK, q0)]
        if multi:
            good.append(z3.Or(R_.n == 0, f(NAMED, q0)))
        out = [("accepted exactly if every line is valid and no wanted name is missing", s == z3.And(good))]
        tr = [t for t in c.st.trace if t[0] == "built"]
        if okv(r) is None:
            return out
        if len(tr) != 1:
            return out + [("an event is put together", z3.Not(s))]
        b, ev = tr[0][1], tr[0][2]
        o, w = b.f[bO], b.f[bW]
        x = okv(r)
        out.append(("it is the event put together", z3.Implies(s, z3.And([zi(x.f[0]) == zi(ev.f[0]), zi(x.f[1].id) == zi(ev.f[1].id)] + [y == z for y, z in zip(x.f[2].lv, ev.f[2].lv)]))))
        out.append(("as many particles as outgoing lines", z3.Implies(s, zi(o.n) == f(NOUT, q0))))
        k = fresh("k", I)
        l = f(LINE, q0, k)
        pos, _, _ = ns.pl(arr, l, e)
        pid, mom, _ = ns.out_at(o, k)
        D = ENT["double"][2]
        sc = z3.If(f(INGEV, q0, z3.BoolVal(True)), z3.RealVal(1), z3.RealVal("1/1000"))
        out.append(("each outgoing particle has the id of its line", FA([k], z3.Implies(z3.And(s, 0 <= k, k < zi(o.n)), pid == ENT["i32"][2](arr, pos[1], e)), [pid])))
        for i, (nm, m) in enumerate((("energy", 5), ("px", 2), ("py", 3), ("pz", 4))):
            out.append(("and its %s in GeV" % nm, FA([k], z3.Implies(z3.And(s, 0 <= k, k < zi(o.n)), mom[i] == sc * D(arr, pos[m], e)), [mom[i]])))
        if multi:
            out.append(("number of weights", z3.Implies(s, zi(w.n) == 1 + f(NWT, q0))))
        out += [(l_, z3.Implies(s, g)) for l_, g in wlist(R_, arr, p, e, w, q0, None)]
        return out

    def ph_req(c):
        R_, arr, p, e, c0, q0 = rec(c)
        return [("a text", z3.And(0 <= p, p <= e, e < 2 ** 59)), ("names", z3.And(0 <= R_.n, R_.n < 2 ** 60))]
    con = add("<io::Converter as hepmc2::HepMCParser>::parse_hepmc", facts=lambda c: [wantdef(rec(c)[0].N, rec(c)[0].n), fewerdef()], requires=ph_req, ensures=ph_ens, loops={0: LoopSpec(ph_inv)})
    con.tyover["std::string::String"] = ("z", I)
    con.tell = lambda c: ("parsed", "hepmc2", models.ld(c.eng, c.st, c.a[1]), c.ret)
    con.uses = ("event::EventBuilder::build", "event::EventBuilder::rescale_energies", "event::EventBuilder::add_weight", "event::EventBuilder::new")
    return cs
