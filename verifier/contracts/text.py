"""Texts as sequences of bytes, and what nom's parsers do to them.

A piece of text is a view (array, from, to). A parser applied to it either fails or leaves the view from some later
position; what it reads is a function of the array and the two positions, so reading the same place twice gives the same.
"""
from contracts.common import *
from contracts.options import chain

AI = z3.ArraySort(I, I)
F = z3.Function
TEXT = ("seq", ("z", I))
TYOVER = {"str": TEXT, "std::string::String": TEXT, "dyn": ("agg", "stream", [("z", z3.ArraySort(I, I)), ("z", I), ("z", I)]),
          "std::path::PathBuf": ("z", I), "std::path::Path": ("z", I)}
RES, OPT = "std::result::Result", "std::option::Option"
# end of what is skipped from a position
BLANKS = F("after_blanks", AI, I, I, I)           # spaces and tabs
SPACES = F("after_white_space", AI, I, I, I)      # also line breaks
WORD = F("end_of_word", AI, I, I, I)              # next white space
TRIMMED = F("after_unicode_white_space", AI, I, I, I)
TRIMEND = F("end_without_white_space", AI, I, I, I)
NUMS = {}
for _k, _s in (("u32", I), ("i32", I), ("u64", I), ("double", R)):
    NUMS[_k] = (F("is_" + _k, AI, I, I, B), F("end_of_" + _k, AI, I, I, I), F("value_of_" + _k, AI, I, I, _s))
RANGE = {"u32": (0, 2 ** 32), "i32": (-2 ** 31, 2 ** 31), "u64": (0, 2 ** 64)}
# entries: blanks, then a word or a number
ANY_OK, ANY_AT, ANY_END = F("is_entry", AI, I, I, B), F("start_of_entry", AI, I, I, I), F("end_of_entry", AI, I, I, I)
ENT = {k: (F("is_%s_entry" % k, AI, I, I, B), F("end_of_%s_entry" % k, AI, I, I, I), F("value_of_%s_entry" % k, AI, I, I, R if k == "double" else I)) for k in ("u32", "i32", "double")}
ENT["any"] = (ANY_OK, ANY_END, None)
# repeated entries: position after the first i
AFTER = {k: F("after_%s_entries" % k, AI, I, I, I, I) for k in ("any", "double")}
DTXT, DLEN = F("text_of_number", R, AI), F("length_of_number", R, I)
FINDC = F("next_byte", I, AI, I, I, I)            # next position of a byte, or the end


def S(x):
    return z3.simplify(zi(x))


def view(arr, p, e):
    return SeqV(("z", I), [arr], S(p), S(e - p))


def parts(v):
    """array, start and end of a piece of text"""
    if not (isinstance(v, SeqV) and len(v.lv) == 1 and v.lv[0].sort() == AI):
        raise Unsupported("not a text")
    p = S(v.off)
    return v.lv[0], p, S(p + zi(v.n))


def blank(x):
    return z3.Or(x == 32, x == 9)


def white(x):
    return z3.Or(x == 32, x == 9, x == 10, x == 13, x == 12)


def multi(x):
    return z3.Or(x == 32, x == 9, x == 10, x == 13)


def skipdef(f, cls, arr, p, e):
    """f(arr, p, e) is the first position from p that is not in the class, or e"""
    q = fresh("q", I)
    t = f(arr, p, e)
    return z3.Implies(p <= e, z3.And(p <= t, t <= e, z3.ForAll([q], z3.Implies(z3.And(p <= q, q < t), cls(z3.Select(arr, q))), patterns=[z3.Select(arr, q)]),
                                     z3.Implies(t < e, z3.Not(cls(z3.Select(arr, t))))))


def blankdef(arr, p, e):
    return skipdef(BLANKS, blank, arr, p, e)


def worddef(arr, p, e):
    return skipdef(WORD, lambda x: z3.Not(white(x)), arr, p, e)


def finddef(b, arr, p, e):
    return skipdef(lambda a, q, r: FINDC(z3.IntVal(b), a, q, r), lambda x: x != b, arr, p, e)


def anydef(arr, p, e):
    """an entry: blanks, then a word that extends to the next white space"""
    s = BLANKS(arr, p, e)
    return z3.And(blankdef(arr, p, e), z3.Implies(s <= e, worddef(arr, s, e)),
                  ANY_OK(arr, p, e) == z3.And(s > p, s < e, z3.Not(white(z3.Select(arr, s)))),
                  ANY_AT(arr, p, e) == s, ANY_END(arr, p, e) == WORD(arr, s, e))


def numdef(k, arr, p, e):
    ok, end, val = NUMS[k]
    q = fresh("q", I)
    r = [z3.Implies(z3.And(p <= e, ok(arr, p, e)), z3.And(p < end(arr, p, e), end(arr, p, e) <= e,
                                            z3.ForAll([q], z3.Implies(z3.And(p <= q, q < end(arr, p, e)), z3.Not(white(z3.Select(arr, q)))), patterns=[z3.Select(arr, q)])))]
    if k in RANGE:
        r.append(z3.And(RANGE[k][0] <= val(arr, p, e), val(arr, p, e) < RANGE[k][1]))
    return z3.And(r)


def entdef(k, arr, p, e):
    """a number after blanks"""
    if k == "any":
        return anydef(arr, p, e)
    s = BLANKS(arr, p, e)
    ok, end, val = ENT[k]
    nok, nend, nval = NUMS[k]
    return z3.And(blankdef(arr, p, e), numdef(k, arr, s, e), ok(arr, p, e) == z3.And(s > p, nok(arr, s, e)), end(arr, p, e) == nend(arr, s, e), val(arr, p, e) == nval(arr, s, e))


def afterdef(k, arr, p, e, n):
    """positions after repeated entries"""
    i = fresh("i", I)
    ok, end, _ = ENT[k]
    f = AFTER[k]
    return z3.And(f(arr, p, e, 0) == p, z3.ForAll([i], z3.Implies(0 <= i, f(arr, p, e, i + 1) == end(arr, f(arr, p, e, i), e)), patterns=[f(arr, p, e, i + 1), end(arr, f(arr, p, e, i), e)]))


def rep_ok(k, arr, p, e, n):
    """n entries follow each other"""
    i = fresh("i", I)
    f = AFTER[k]
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ENT[k][0](arr, f(arr, p, e, i), e)), patterns=[f(arr, p, e, i)])


def same_text(a, b):
    """equality of a text with one of known length"""
    n = z3.simplify(zi(b.n))
    if not z3.is_int_value(n):
        a, b = b, a
        n = z3.simplify(zi(b.n))
    if not z3.is_int_value(n):
        return None
    return z3.And(zi(a.n) == n, *[z3.Select(a.lv[0], S(zi(a.off) + i)) == z3.Select(b.lv[0], S(zi(b.off) + i)) for i in range(n.as_long())])


def literal(v):
    """bytes of a literal"""
    if isinstance(v, SeqV) and z3.is_const(v.lv[0]) and v.lv[0].decl().name().startswith("text:"):
        return v.lv[0].decl().name()[5:].encode("latin1")
    return None


def strconst(eng, st, s):
    return bytesconst(eng, st, s.encode())


def bytesconst(eng, st, bs):
    if isinstance(bs, str):
        bs = bs.encode("latin1")
    bs = bytes(bs)
    a = z3.Const("text:" + bs.decode("latin1"), AI)
    st.fact(*[z3.Select(a, i) == x for i, x in enumerate(bs)])
    return SeqV(("z", I), [a], 0, len(bs))


def at(arr, p, bs, e):
    return z3.And(p + len(bs) <= e, *[z3.Select(arr, S(p + i)) == x for i, x in enumerate(bs)])


# ---------------------------------------------------------------- parsers
FAIL = None


def run(eng, st, P, arr, p, e):
    """[(state, None or (position, value))]"""
    P = models.ld(eng, st, P)
    if isinstance(P, Fn):
        n = P.f["p"]
        if n.startswith("nom::"):
            return leaf(eng, st, n.rsplit("::", 1)[1], arr, p, e)
        out = []
        for s, r in eng.apply(st, P, [view(arr, p, e)]):
            for s2, k in models.fork_enum(eng, s, r):
                if k == 1:
                    out.append((s2, None))
                    continue
                t = r.pay[0].f[0]
                a2, p2, e2 = parts(models.ld(eng, s2, t.f[0]))
                if not a2.eq(arr) or not S(e2).eq(S(e)):
                    raise Unsupported("parser that leaves another text")
                out.append((s2, (p2, t.f[1])))
        return out
    if isinstance(P, Agg) and P.ty == "tuple":
        outs = [(st, (p, []))]
        for q in P.f:
            nxt = []
            for s, r in outs:
                if r is None:
                    nxt.append((s, None))
                    continue
                nxt += [(s2, None if r2 is None else (r2[0], r[1] + [r2[1]])) for s2, r2 in run(eng, s, q, arr, r[0], e)]
            outs = nxt
        return [(s, None if r is None else (r[0], Agg("tuple", r[1]))) for s, r in outs]
    if isinstance(P, Agg) and P.ty == "nom:preceded":
        return [(s, None if r is None else (r[0], r[1].f[1])) for s, r in run(eng, st, Agg("tuple", P.f), arr, p, e)]
    if isinstance(P, Agg) and P.ty == "nom:delimited":
        return [(s, None if r is None else (r[0], r[1].f[1])) for s, r in run(eng, st, Agg("tuple", P.f), arr, p, e)]
    if isinstance(P, Agg) and P.ty == "nom:tag":
        bs = P.f[0]
        return [(s, (S(p + len(bs)), view(arr, p, S(p + len(bs)))) if b else None) for s, b in models.fork(eng, st, at(arr, p, bs, e))]
    if isinstance(P, Agg) and P.ty == "nom:take_until":
        b = P.f[0]
        st.fact(finddef(b, arr, p, e))
        q = FINDC(z3.IntVal(b), arr, p, e)
        return [(s, (q, view(arr, p, q)) if k else None) for s, k in models.fork(eng, st, q < e)]
    if isinstance(P, Agg) and P.ty == "nom:take_while1":
        ch = fresh("char", I)
        rs = eng.apply(st, P.f[0], [ch])
        if len(rs) != 1:
            raise Unsupported("character class")
        cls = zb(rs[0][1])
        t = fresh("t", I)
        st = rs[0][0]
        q = fresh("q", I)
        in_ = lambda x: z3.substitute(cls, (ch, x))
        st.fact(p <= t, t <= e, z3.ForAll([q], z3.Implies(z3.And(p <= q, q < t), in_(z3.Select(arr, q))), patterns=[z3.Select(arr, q)]), z3.Implies(t < e, z3.Not(in_(z3.Select(arr, t)))))
        return [(s, (t, view(arr, p, t)) if b else None) for s, b in models.fork(eng, st, t > p)]
    if isinstance(P, Agg) and P.ty == "nom:count":
        fn, n = models.ld(eng, st, P.f[0]), zi(P.f[1])
        k = {"parsing::any_entry": "any", "parsing::double_entry": "double"}.get(fn.f["p"] if isinstance(fn, Fn) else "")
        if k is None:
            raise Unsupported("repetition of this parser")
        f = AFTER[k]
        bad = st.copy()
        i = fresh("i", I)
        j = fresh("failing", I)
        facts = [afterdef(k, arr, p, e, n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, ENT[k][0](arr, f(arr, p, e, i), e)), entdef(k, arr, f(arr, p, e, i), e)), patterns=[f(arr, p, e, i)])]
        st.fact(*facts)
        st.branch(rep_ok(k, arr, p, e, n))
        # positions stay within the text
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(p <= f(arr, p, e, i), f(arr, p, e, i) <= e)), patterns=[f(arr, p, e, i)]))
        bad.fact(*facts, 0 <= j, j < n)
        bad.branch(z3.Not(ENT[k][0](arr, f(arr, p, e, j), e)))
        if k == "double":
            a = fresh("values", z3.ArraySort(I, R))
            st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(a, i) == ENT[k][2](arr, f(arr, p, e, i), e)), patterns=[z3.Select(a, i)]))
            v = SeqV(("z", R), [a], 0, n)
        else:
            v = Opaque("entries")
        return [(st, (f(arr, p, e, n), v)), (bad, None)]
    raise Unsupported("parser %s" % (P.ty if isinstance(P, Agg) else type(P).__name__))


def leaf(eng, st, n, arr, p, e):
    if n in ("space0", "space1"):
        st.fact(blankdef(arr, p, e))
        q = BLANKS(arr, p, e)
        if n == "space0":
            return [(st, (q, view(arr, p, q)))]
        return [(s, (q, view(arr, p, q)) if b else None) for s, b in models.fork(eng, st, q > p)]
    if n == "multispace0":
        st.fact(skipdef(SPACES, multi, arr, p, e))
        q = SPACES(arr, p, e)
        return [(st, (q, view(arr, p, q)))]
    if n in NUMS:
        ok, end, val = NUMS[n]
        st.fact(numdef(n, arr, p, e))
        return [(s, (end(arr, p, e), val(arr, p, e)) if b else None) for s, b in models.fork(eng, st, ok(arr, p, e))]
    raise Unsupported("nom parser " + n)


def result(outs, arr, e):
    return [(s, models.ok(Agg("tuple", [view(arr, r[0], e), r[1]])) if r is not None else models.err(Opaque("nom::Err"))) for s, r in outs]


def m_parse(eng, st, a, info):
    v = models.ld(eng, st, a[1])
    arr, p, e = parts(v)
    return result(run(eng, st.copy(), a[0], arr, p, e), arr, e)


def m_leaf(eng, st, a, info):
    arr, p, e = parts(models.ld(eng, st, a[0]))
    return result(leaf(eng, st.copy(), info.c["p"].rsplit("::", 1)[1], arr, p, e), arr, e)


def comb(name):
    def model(eng, st, a, info):
        return [(st, Agg("nom:" + name, list(a)))]
    return model


def m_tag(eng, st, a, info):
    b = literal(models.ld(eng, st, a[0]))
    if b is None:
        return NotImplemented
    return [(st, Agg("nom:tag", [b]))]


def m_until(eng, st, a, info):
    b = literal(models.ld(eng, st, a[0]))
    if b is None or len(b) != 1:
        return NotImplemented
    return [(st, Agg("nom:take_until", [b[0]]))]


def cint(v):
    v = z3.simplify(zi(v))
    return v.as_long() if z3.is_int_value(v) else None


def m_char(eng, st, a, info):
    b = cint(a[0])
    if b is None or b > 127:
        return NotImplemented
    return [(st, Agg("nom:tag", [bytes([b])]))]


# ---------------------------------------------------------------- texts
def needle(eng, st, v):
    v = models.ld(eng, st, v)
    if isinstance(v, Agg) and v.ty == "array":
        xs = [cint(x) for x in v.f]
        return None if None in xs else bytes(xs)
    if isinstance(v, SeqV):
        b = literal(v)
        if b is not None:
            return b
        n = cint(v.n)
        return None
    c = cint(v)
    return bytes([c]) if c is not None and c < 128 else None


def m_starts(eng, st, a, info):
    v, b = models.ld(eng, st, a[0]), needle(eng, st, a[1])
    if b is None or not isinstance(v, SeqV):
        return NotImplemented
    arr, p, e = parts(v)
    return [(st, at(arr, p, b, e))]


def m_ends(eng, st, a, info):
    v, b = models.ld(eng, st, a[0]), needle(eng, st, a[1])
    if b is None or not isinstance(v, SeqV):
        return NotImplemented
    arr, p, e = parts(v)
    return [(st, z3.And(e - p >= len(b), *[z3.Select(arr, S(e - len(b) + i)) == x for i, x in enumerate(b)]))]


def fneedle(b):
    """first position of a text of several bytes, or the end"""
    return F("next_text:" + b.decode(), AI, I, I, I)


def findtext(b, arr, p, e):
    f = fneedle(b)
    q = fresh("q", I)
    t = f(arr, p, e)
    return z3.Implies(p <= e, z3.And(p <= t, t <= e, z3.ForAll([q], z3.Implies(z3.And(p <= q, q < t), z3.Not(at(arr, q, b, e))), patterns=[z3.Select(arr, q)]),
                                     z3.Implies(t < e, at(arr, t, b, e))))


def m_find(eng, st, a, info):
    v, b = models.ld(eng, st, a[0]), needle(eng, st, a[1])
    if b is None or not isinstance(v, SeqV):
        return NotImplemented
    arr, p, e = parts(v)
    st = st.copy()
    if len(b) == 1:
        st.fact(finddef(b[0], arr, p, e))
        q = FINDC(z3.IntVal(b[0]), arr, p, e)
    else:
        st.fact(findtext(b, arr, p, e))
        q = fneedle(b)(arr, p, e)
    return [(s, models.some(S(q - p)) if k else models.none()) for s, k in models.fork(eng, st, q < e)]


def m_split_at(eng, st, a, info):
    arr, p, e = parts(models.ld(eng, st, a[0]))
    k = zi(a[1])
    eng.oblige(st, z3.And(0 <= k, k <= e - p), "split within the text", "panic")
    st.fact(0 <= k, k <= e - p)
    return [(st, Agg("tuple", [view(arr, p, S(p + k)), view(arr, S(p + k), e)]))]


def m_trim_start(eng, st, a, info):
    arr, p, e = parts(models.ld(eng, st, a[0]))
    st = st.copy()
    st.fact(skipdef(TRIMMED, white, arr, p, e))
    return [(st, view(arr, TRIMMED(arr, p, e), e))]


def m_trim(eng, st, a, info):
    arr, p, e = parts(models.ld(eng, st, a[0]))
    st = st.copy()
    st.fact(skipdef(TRIMMED, white, arr, p, e))
    t = TRIMMED(arr, p, e)
    f = TRIMEND(arr, p, e)
    st.fact(t <= f, f <= e, (f == t) == (t == e))
    return [(st, view(arr, t, f))]


def m_eq(neg):
    def model(eng, st, a, info):
        x, y = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
        if not (isinstance(x, SeqV) and isinstance(y, SeqV)):
            return NotImplemented
        r = same_text(x, y)
        if r is None:
            return NotImplemented
        return [(st, z3.Not(r) if neg else r)]
    return model


def m_to_string(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, SeqV):
        return [(st, v)]
    if isz(v) and v.sort() == R:
        st = st.copy()
        st.fact(numtext(v))
        return [(st, SeqV(("z", I), [DTXT(v)], 0, DLEN(v)))]
    return NotImplemented


def numtext(w):
    """the text of a number is one word"""
    q = fresh("q", I)
    return z3.And(DLEN(w) >= 1, DLEN(w) < 2 ** 20, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < DLEN(w)), z3.Not(white(z3.Select(DTXT(w), q)))), patterns=[z3.Select(DTXT(w), q)]))


def spliced(new, old, s, e, t):
    """`new` is `old` with the bytes from s to e replaced by the text t"""
    k = fresh("k", I)
    n0, n1, m = zi(old.n), zi(new.n), zi(t.n)
    o0, o1, ot = zi(old.off), zi(new.off), zi(t.off)
    N, O, T = new.lv[0], old.lv[0], t.lv[0]
    el = lambda a, i: z3.Select(a, S(i))
    return [("length", n1 == n0 - (e - s) + m),
            ("bytes before", FA([k], z3.Implies(z3.And(0 <= k, k < s), el(N, o1 + k) == el(O, o0 + k)), [el(N, o1 + k)])),
            ("replaced bytes", FA([k], z3.Implies(z3.And(s <= k, k < s + m), el(N, o1 + k) == el(T, ot + k - s)), [el(N, o1 + k)])),
            ("bytes after", FA([k], z3.Implies(z3.And(s + m <= k, k < n1), el(N, o1 + k) == el(O, o0 + k - m - s + e)), [el(N, o1 + k)]))]


def m_replace(eng, st, a, info):
    old, r, t = models.ld(eng, st, a[0]), models.ld(eng, st, a[1]), models.ld(eng, st, a[2])
    if not (isinstance(r, Agg) and r.ty == "std::ops::Range" and isinstance(a[0], Ptr) and isinstance(t, SeqV)):
        return NotImplemented
    s, e = zi(r.f[0]), zi(r.f[1])
    eng.oblige(st, z3.And(0 <= s, s <= e, e <= zi(old.n)), "replaced range within the text", "panic")
    st = st.copy()
    st.fact(0 <= s, s <= e, e <= zi(old.n))
    p = a[0]
    while isinstance(eng.load(st, p), Ptr):
        p = eng.load(st, p)
    new = SeqV(("z", I), [fresh("text", AI)], 0, S(zi(old.n) - (e - s) + zi(t.n)))
    st.fact(*[g for _, g in spliced(new, old, s, e, t)])
    eng.assign(st, p, new)
    return [(st, UNIT)]


def m_isspace(eng, st, a, info):
    return [(st, white(zi(models.ld(eng, st, a[0]))))]


def m_message(eng, st, a, info):
    """text of an error message: not looked into"""
    n = fresh("length", I)
    st = st.copy()
    st.fact(n >= 0)
    return [(st, SeqV(("z", I), [fresh("message", AI)], 0, n))]


def m_same(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v)] if isinstance(v, SeqV) else NotImplemented


def m_either(eng, st, a, info):
    r = m_same(eng, st, a, info)
    return m_path(eng, st, a, info) if r is NotImplemented else r


def m_pid(eng, st, a, info):
    return [(st, Agg("particle_id::ParticleID", [a[0]]))]


def unit(eng, st, a, info):
    return [(st, UNIT)]


# ---------------------------------------------------------------- files
STREAM = ("agg", "stream", [("z", AI), ("z", I), ("z", I)])
CONTENT, CONLEN = F("content_of_file", I, AI), F("length_of_file", I, I)


def stream(eng, st, v):
    """place and value of a source or sink"""
    p = v
    while isinstance(p, Ptr) and isinstance(eng.load(st, p), Ptr):
        p = eng.load(st, p)
    x = eng.load(st, p) if isinstance(p, Ptr) else p
    if not (isinstance(x, Agg) and x.ty == "stream"):
        return None, None
    return p, x


def extended(new, old, t):
    """`new` is `old` followed by the text t"""
    k = fresh("k", I)
    n0, n1, m = zi(old.n), zi(new.n), zi(t.n)
    el = lambda a, i: z3.Select(a, S(i))
    N, O, T = new.lv[0], old.lv[0], t.lv[0]
    o0, o1, ot = zi(old.off), zi(new.off), zi(t.off)
    return [("length", n1 == n0 + m),
            ("bytes before", FA([k], z3.Implies(z3.And(0 <= k, k < n0), el(N, o1 + k) == el(O, o0 + k)), [el(N, o1 + k)])),
            ("bytes added", FA([k], z3.Implies(z3.And(n0 <= k, k < n0 + m), el(N, o1 + k) == el(T, ot + k - n0)), [el(N, o1 + k)]))]


def m_read_until(eng, st, a, info):
    p, s = stream(eng, st, a[0])
    b = cint(models.ld(eng, st, a[1]))
    if s is None or b is None or not isinstance(p, Ptr):
        return NotImplemented
    arr, pos, end = s.f
    old = models.ld(eng, st, a[2])
    st = st.copy()
    bad = st.copy()
    st.fact(finddef(b, arr, pos, end))
    q = FINDC(z3.IntVal(b), arr, pos, end)
    n = S(z3.If(q < end, q + 1, end) - pos)
    new = SeqV(("z", I), [fresh("buffer", AI)], 0, S(zi(old.n) + n))
    st.fact(*[g for _, g in extended(new, old, SeqV(("z", I), [arr], S(pos), n))])
    eng.assign(st, a[2], new)
    eng.assign(st, p, Agg("stream", [arr, S(pos + n), end]))
    # after a failure nothing is known
    eng.assign(bad, a[2], SeqV(("z", I), [fresh("buffer", AI)], 0, nonneg(bad)))
    np_ = fresh("pos", I)
    bad.fact(pos <= np_, np_ <= end)
    eng.assign(bad, p, Agg("stream", [arr, np_, end]))
    return [(st, models.ok(n)), (bad, models.err(Opaque("std::io::Error")))]


def nonneg(st):
    n = fresh("n", I)
    st.fact(n >= 0)
    return n


def m_write_all(eng, st, a, info):
    p, s = stream(eng, st, a[0])
    t = models.ld(eng, st, a[1])
    if s is None or not isinstance(t, SeqV) or not isinstance(p, Ptr):
        return NotImplemented
    arr, pos, end = s.f
    st = st.copy()
    bad = st.copy()
    n = S(zi(end) + zi(t.n))
    N = fresh("written", AI)
    st.fact(*[g for _, g in extended(SeqV(("z", I), [N], 0, n), SeqV(("z", I), [arr], 0, end), t)])
    st.trace = st.trace + (("written", t),)
    eng.assign(st, p, Agg("stream", [N, pos, n]))
    eng.assign(bad, p, Agg("stream", [fresh("written", AI), pos, nonneg(bad)]))
    return [(st, models.ok(UNIT)), (bad, models.err(Opaque("std::io::Error")))]


def m_utf8(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st.copy(), models.ok(v)), (st.copy(), models.err(Opaque("FromUtf8Error")))] if isinstance(v, SeqV) else NotImplemented


def m_open(eng, st, a, info):
    """what the file at a path holds (decompressed)"""
    p = models.ld(eng, st, a[0])
    if not (isz(p) and p.sort() == I):
        return NotImplemented
    st = st.copy()
    st.fact(0 <= CONLEN(p), CONLEN(p) < 2 ** 60)
    return [(st, models.ok(Agg("stream", [CONTENT(p), z3.IntVal(0), CONLEN(p)]))), (st.copy(), models.err(Opaque("std::io::Error")))]


def m_createfile(eng, st, a, info):
    st = st.copy()
    return [(st, models.ok(Agg("stream", [fresh("new_file", AI), z3.IntVal(0), z3.IntVal(0)]))), (st.copy(), models.err(Opaque("std::io::Error")))]


def m_samestream(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v)] if isinstance(v, Agg) and v.ty == "stream" else NotImplemented


def m_compressed(eng, st, a, info):
    """what is read back from a compressed file is what was written"""
    v = models.ld(eng, st, a[0])
    if not (isinstance(v, Agg) and v.ty == "stream"):
        return NotImplemented
    return [(st, models.ok(v)), (st.copy(), models.err(Opaque("std::io::Error")))]


def m_path(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v)] if isz(v) and v.sort() == I else NotImplemented


def m_error(eng, st, a, info):
    return [(st, Opaque("error"))]


MODS = {
    "std::io::BufRead::read_until": m_read_until, "std::io::Write::write_all": m_write_all, "std::string::String::from_utf8": m_utf8,
    "std::fs::File::open": m_open, "std::fs::File::create": m_createfile, "audec::auto_decompress": m_samestream, "std::io::BufReader::<R>::new": m_samestream,
    "std::io::BufWriter::<W>::new": m_samestream, "compression::compress_writer": m_compressed, "std::path::PathBuf::as_path": m_path, "std::path::Path::to_path_buf": m_path,
    "std::ops::Deref::deref": m_path, "std::convert::AsRef::as_ref": m_path,
    "strconst": strconst, "bytesconst": bytesconst,
    "nom::Parser::parse": m_parse, "nom::sequence::preceded": comb("preceded"), "nom::sequence::delimited": comb("delimited"), "nom::multi::count": comb("count"),
    "nom::bytes::complete::take_while1": comb("take_while1"), "nom::bytes::complete::tag": m_tag, "nom::bytes::complete::take_until": m_until, "nom::character::complete::char": m_char,
    "core::str::<impl str>::starts_with": m_starts, "core::slice::<impl [T]>::starts_with": m_starts, "core::slice::<impl [T]>::ends_with": m_ends,
    "core::str::<impl str>::find": m_find, "core::str::<impl str>::split_at": m_split_at, "core::str::<impl str>::trim_start": m_trim_start, "core::str::<impl str>::trim": m_trim,
    "std::cmp::PartialEq::eq": m_eq(False), "std::cmp::PartialEq::ne": m_eq(True), "std::string::ToString::to_string": m_to_string,
    "std::string::String::replace_range": m_replace, "std::char::methods::<impl char>::is_ascii_whitespace": m_isspace, "core::num::<impl u8>::is_ascii_whitespace": m_isspace,
    "util::take_chars": m_message, "std::string::String::as_str": m_either, "std::string::String::as_bytes": m_same, "core::str::<impl str>::as_bytes": m_same, "std::borrow::ToOwned::to_owned": m_either, "std::clone::Clone::clone": m_either,
}
for _k in NUMS:
    MODS["nom::%s::complete::%s" % ("number" if _k == "double" else "character", _k)] = m_leaf
MODS = {k: chain(k, f) for k, f in MODS.items()}


# ---------------------------------------------------------------- parsing.rs
def entry_contract(path, k, props, ok_of=None):
    """blanks, then a word or a number"""
    ok, end, val = ENT[k]

    def txt(c):
        return parts(models.ld(c.eng, c.st, c.a[0]))

    def ret(c):
        arr, p, e = txt(c)
        c.st.fact(entdef(k, arr, p, e))
        v = view(arr, ANY_AT(arr, p, e), end(arr, p, e)) if k == "any" else val(arr, p, e)
        return result([(s, (end(arr, p, e), v) if b else None) for s, b in models.fork(c.eng, c.st, ok(arr, p, e))], arr, e)

    def ens(c):
        arr, p, e = txt(c)
        r = c.ret
        out = [("succeeds exactly if there is such an entry", (zi(r.d) == 0) == ok(arr, p, e))]
        if r.pay.get(0) is None:
            return out
        t = r.pay[0].f[0]
        a2, p2, e2 = parts(t.f[0])
        s = zi(r.d) == 0
        out.append(("what follows the entry is left", z3.Implies(s, z3.And(a2 == arr, p2 == end(arr, p, e), e2 == e, p < p2, p2 <= e))))
        if k == "any":
            a3, p3, e3 = parts(t.f[1])
            out.append(("the entry itself", z3.Implies(s, z3.And(a3 == arr, p3 == ANY_AT(arr, p, e), e3 == end(arr, p, e), p < p3, p3 < e3))))
        else:
            out.append(("its value", z3.Implies(s, t.f[1] == val(arr, p, e))))
        return out
    con = Contract(path, requires=lambda c: [("a text", z3.And(0 <= txt(c)[1], txt(c)[1] <= txt(c)[2], txt(c)[2] < 2 ** 62))], ensures=ens, returns=ret, props=props)
    con.facts = lambda c: [entdef(k, *txt(c))]
    return text(con)


def text(con, **m):
    con.models = dict(MODS)
    con.models.update({k: chain(k, f) for k, f in m.items()})
    con.tyover = dict(TYOVER)
    return con


def contracts(crate, multi):
    P = ("C13", "C14")
    cs = [entry_contract("parsing::%s_entry" % k, k, P) for k in ("any", "u32", "i32", "double")]

    # words
    def txt(c):
        return parts(models.ld(c.eng, c.st, c.a[0]))

    def ns_ret(c):
        arr, p, e = txt(c)
        c.st.fact(worddef(arr, p, e))
        q = WORD(arr, p, e)
        return result([(s, (q, view(arr, p, q)) if b else None) for s, b in models.fork(c.eng, c.st, q > p)], arr, e)

    def ns_ens(c):
        arr, p, e = txt(c)
        q = WORD(arr, p, e)
        r = c.ret
        out = [("succeeds exactly if there is a word", (zi(r.d) == 0) == (q > p))]
        if r.pay.get(0) is not None:
            t = r.pay[0].f[0]
            a2, p2, e2 = parts(t.f[0])
            a3, p3, e3 = parts(t.f[1])
            out.append(("the word and what follows", z3.Implies(zi(r.d) == 0, z3.And(a2 == arr, p2 == q, e2 == e, a3 == arr, p3 == p, e3 == q))))
        return out
    con = Contract("parsing::non_space", requires=lambda c: [("a text", z3.And(0 <= txt(c)[1], txt(c)[1] <= txt(c)[2], txt(c)[2] < 2 ** 62))], ensures=ns_ens, returns=ns_ret, props=P)
    con.facts = lambda c: [worddef(*txt(c))]
    cs.append(text(con))
    return cs
