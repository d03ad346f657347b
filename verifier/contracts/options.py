"""Command line options: values are accepted exactly when they are supported.

A string is a token: an integer that identifies its text (equal strings, equal tokens).
"""
from contracts.common import *

STR = ("z", I)
TYOVER = {"str": STR, "std::string::String": STR}
F = lambda n, *s: z3.Function(n, *s)
LOWER = F("lower_case", I, I)            # text with ASCII letters in lower case
MATCHES = F("is_algorithm_and_level", I, B)     # matched by the regular expression of parse_compr
ALGO = F("part_before_level", I, I)
HASLVL = F("has_level", I, B)
LVL = F("underscore_and_digits", I, I)
REST = F("text_after_first_byte", I, I)
ISU = {8: F("is_u8", I, B), 32: F("is_u32", I, B)}
VALU = {8: F("value_u8", I, I), 32: F("value_u32", I, I)}
REGEX = r"^(?P<algo>[[:alnum:]]+)(?P<lvl>_\d+)?$"
TOK = {}


def tok(s):
    """token of a literal"""
    return z3.IntVal(TOK.setdefault(s, len(TOK) + 1))


def is_tok(v):
    return isz(v) and v.sort() == I


def _same(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v)] if is_tok(v) else NotImplemented


def _display(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v if is_tok(v) else fresh("text", I))]


def _eq(neg):
    def model(eng, st, a, info):
        x, y = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
        if not (is_tok(x) and is_tok(y)):
            return NotImplemented
        return [(st, x != y if neg else x == y)]
    return model


def _lower(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if not is_tok(v):
        return NotImplemented
    return [(st, LOWER(v))]


def _static(eng, st, name):
    if name.endswith("opt_common::COMPRESSION_RE"):
        return Opaque("regex", None, {"regex": "compression"})
    return None


def _deref(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, v)] if isinstance(v, Opaque) and v.ty == "regex" or is_tok(v) else NotImplemented


def _captures(eng, st, a, info):
    r, s = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
    if not (isinstance(r, Opaque) and r.ty == "regex" and is_tok(s)):
        return NotImplemented
    return [(s2, models.some(Agg("captures", [s])) if b else models.none()) for s2, b in models.fork(eng, st, MATCHES(s))]


def lit(v):
    """text of a literal token"""
    if not is_tok(v):
        return None
    k = z3.simplify(v)
    return next((s for s, n in TOK.items() if z3.is_int_value(k) and n == k.as_long()), None)


def _group(eng, st, a, info):
    c = models.ld(eng, st, a[0])
    n = lit(models.ld(eng, st, a[1]))
    if not (isinstance(c, Agg) and c.ty == "captures"):
        return NotImplemented
    opt = info.c["p"].endswith("::name")
    if n == "algo":
        v = ALGO(c.f[0])
        return [(st, models.some(Agg("match", [v])) if opt else v)]
    if n == "lvl" and opt:
        return [(s2, models.some(Agg("match", [LVL(c.f[0])])) if b else models.none()) for s2, b in models.fork(eng, st, HASLVL(c.f[0]))]
    if n == "lvl":
        eng.oblige(st, HASLVL(c.f[0]), "the level is only used where there is one", "panic")
        return [(st, LVL(c.f[0]))]
    return NotImplemented


def _asstr(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if isinstance(v, Agg) and v.ty == "match":
        return [(st, v.f[0])]
    return [(st, v)] if is_tok(v) else NotImplemented


def _slice(eng, st, a, info):
    """[1..]: the level starts with an underscore"""
    v, r = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
    if not (is_tok(v) and isinstance(r, Agg) and r.ty == "std::ops::RangeFrom" and is1(r.f[0])):
        return NotImplemented
    if not (z3.is_app(v) and v.decl().name() == LVL.name()):
        return NotImplemented
    return [(st, REST(v))]


def is1(x):
    return isinstance(x, int) and x == 1 or isz(x) and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 1


def _strip(eng, st, a, info):
    """strip_prefix('_') of the level"""
    return NotImplemented


def _parse(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    ts = [t for t in info.targs if t["k"] == "int"]
    if not (is_tok(v) and ts):
        return NotImplemented
    n = {"u8": 8, "u32": 32}.get(ts[0].get("n"))
    if n is None:
        return NotImplemented
    x = VALU[n](v)
    st = st.copy()
    st.fact(x >= 0, x < 2 ** n)
    e = Agg("parse_error", [fresh("error", I)])
    return [(s2, models.ok(x) if b else models.err(e)) for s2, b in models.fork(eng, st, ISU[n](v))]


def _pow2(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    return [(st, pow2(zi(v)))]


def pow2(n):
    return z3.Or([n == 2 ** k for k in range(32)])


def _newregex(eng, st, a, info):
    v = models.ld(eng, st, a[0])
    if lit(v) is None:
        return NotImplemented
    st.trace = st.trace + (("regex", lit(v)),)
    return [(st, models.ok(Opaque("regex", None, {"regex": lit(v)})))]


TOKMODELS = {
    "strconst": lambda eng, st, s: tok(s),
    "static": _static,
    "std::ops::Deref::deref": _deref,
    "std::convert::AsRef::as_ref": _deref,
    "std::borrow::ToOwned::to_owned": _same,
    "std::clone::Clone::clone": _same,
    "std::string::ToString::to_string": _display,
    "std::convert::Into::into": _same,
    "std::convert::From::from": _same,
    "std::string::String::as_str": _same,
    "std::cmp::PartialEq::eq": _eq(False),
    "std::cmp::PartialEq::ne": _eq(True),
    "std::str::<impl str>::to_ascii_lowercase": _lower,
    "std::str::<impl str>::to_lowercase": lambda eng, st, a, info: NotImplemented,
    "regex::Regex::captures": _captures,
    "regex::Regex::new": _newregex,
    "std::ops::Index::index": lambda eng, st, a, info: (lambda r: r if r is not NotImplemented else _slice(eng, st, a, info))(_group(eng, st, a, info)),
    "regex::Captures::<'h>::name": _group,
    "regex::Match::<'h>::as_str": _asstr,
    "core::str::<impl str>::parse": _parse,
    "std::str::FromStr::from_str": _parse,
    "core::num::<impl u32>::is_power_of_two": _pow2,
}


def variant(crate, adt, name):
    return next(i for i, v in enumerate(crate.adts[adt]["variants"]) if v["n"] == name)


def is_ok(r):
    return zi(r.d) == 0


def tokens(con):
    con.tyover = TYOVER
    # models that do not apply leave the general ones in force
    con.models = {k: chain(k, f) for k, f in TOKMODELS.items()}
    return con


def chain(k, f):
    g = models.MODELS.get(k)
    if g is None or k == "strconst":
        return f

    def model(eng, st, a, info):
        r = f(eng, st, a, info)
        return g(eng, st, a, info) if r is NotImplemented else r
    return model


def payload(r, i):
    """payload of variant i, or None if it is none of the possible ones"""
    p = r.pay.get(i)
    return p.f if p is not None else None


def table(crate, adt, names):
    """accepted names: the result is Ok(variant) for its names and Err for all others"""
    def ens(c):
        s = c.a[0]
        r = c.ret
        out = []
        val = payload(r, 0)
        for v, ns in names.items():
            d = variant(crate, adt, v)
            g = z3.Or([s == tok(n) for n in ns])
            out.append(("%s by its names" % v, z3.Implies(g, z3.And(is_ok(r), zi(val[0].d) == d if val else z3.BoolVal(False)))))
        every = [tok(n) for ns in names.values() for n in ns]
        out.append(("nothing else is accepted", z3.Implies(is_ok(r), z3.Or([s == t for t in every]))))
        return out
    return ens


def contracts(crate, multi):
    return [tokens(Contract("<cluster::JetAlgorithm as std::str::FromStr>::from_str", ensures=table(crate, "cluster::JetAlgorithm", {
        "AntiKt": ["anti_kt", "antikt", "anti-kt"], "Kt": ["kt"],
        "CambridgeAachen": ["Cambridge/Aachen", "Cambridge-Aachen", "Cambridge_Aachen", "cambridge/aachen", "cambridge-aachen", "cambridge_aachen"]}),
        props=("C18",)))]


def bincontracts(crates, multi):
    cb = crates["bin-cres"]
    out = []

    def add(crate, path, **k):
        con = tokens(Contract(path, props=("C18",), **k))
        con.crate = crate
        out.append(con)
        return con

    CO = "cres::compression::Compression"

    def compr(c):
        s, r = c.a[0], c.ret
        l = LOWER(s)
        a, n = ALGO(l), VALU[8](REST(LVL(l)))
        is_a = lambda *ns: z3.And(MATCHES(l), z3.Or([a == tok(x) for x in ns]))
        num = ISU[8](REST(LVL(l)))
        val = payload(r, 0)
        res = [("a text that is no algorithm with an optional level is rejected", z3.Implies(is_ok(r), MATCHES(l)))]
        known = []
        for name, alts, limit, default in (("Bzip2", ("bzip2", "bz2"), None, None), ("Gzip", ("gzip", "gz"), 9, 6), ("Lz4", ("lz4",), 16, 0), ("Zstd", ("zstd", "zstandard"), 19, 0)):
            d = variant(cb, CO, name)
            known.append(is_a(*alts))
            good = z3.Not(HASLVL(l)) if limit is None else z3.Or(z3.Not(HASLVL(l)), z3.And(num, n <= limit))
            res.append(("%s is accepted with the levels it supports only" % name, z3.Implies(is_a(*alts), is_ok(r) == good)))
            if val is None:
                continue
            v = val[0]
            res.append(("%s selects the algorithm" % name, z3.Implies(z3.And(is_a(*alts), is_ok(r)), zi(v.d) == d)))
            if limit is not None and v.pay.get(d) is not None:
                lev = v.pay[d].f[0]
                res.append(("%s selects the level" % name, z3.Implies(z3.And(is_a(*alts), is_ok(r)), zi(lev) == z3.If(HASLVL(l), n, default))))
        res.append(("other algorithms are rejected", z3.Implies(is_ok(r), z3.Or(known))))
        return res
    add("bin-cres", "opt_common::parse_compr", ensures=compr)

    def regex(c):
        rs = [t[1] for t in c.st.trace if t[0] == "regex"]
        return [("algorithm, then optionally an underscore and a number", z3.BoolVal(rs == [REGEX]))]
    add("bin-cres", "opt_common::COMPRESSION_RE::{closure#0}", ensures=regex)

    add("bin-cres", "opt_cres::parse_strategy", ensures=table(cb, "cres::seeds::Strategy", {
        "Next": ["Any", "any"], "MostNegative": ["MostNegative", "most_negative"], "LeastNegative": ["LeastNegative", "least_negative"]}))

    def nregions(c):
        s, r = c.a[0], c.ret
        val = payload(r, 0)
        n = VALU[32](s)
        return [("accepted exactly if it is a power of two", is_ok(r) == z3.And(ISU[32](s), pow2(n))),
                ("the number itself", z3.Implies(is_ok(r), zi(val[0]) == n if val else z3.BoolVal(False)))]
    add("bin-cres_partition", "opt_partition::parse_nregions", ensures=nregions)

    def group(v):
        s = [zi(x.d) == 1 for x in v.f]
        return z3.Or(z3.And(s), z3.Not(z3.Or(s)))

    def validate(c):
        le, ph = c.a
        return [("accepted exactly if all or none of each group are given", is_ok(c.ret) == z3.And(group(le), group(ph)))]
    for cr in ("bin-cres", "bin-cres_partition"):
        add(cr, "opt_cres_validate::validate", ensures=validate)

    def fields(crate, src, dst, m):
        sf = [f["n"] for f in crate.adts[src]["variants"][0]["f"]]
        df = [f["n"] for f in crate.adts[dst]["variants"][0]["f"]]
        ix = [(sf.index(a), df.index(b), a) for a, b in m.items()]

        def ens(c):
            a, r = c.a[0], c.ret
            out = []
            for i, j, n in ix:
                x, y = a.f[i], r.f[j]
                if isinstance(x, EnumV) and x.ty == "std::option::Option":
                    x = x.pay[1].f[0]
                out.append((n + " is taken over", models.eq(c.eng, c.st, x, y)))
            return out

        def req(c):
            return [("the values are given", z3.And([zi(x.d) == 1 for x in c.a[0].f if isinstance(x, EnumV) and x.ty == "std::option::Option"]))]
        return ens, req
    for src, dst, m in (("JetDefinition", "JetDefinition", {"jetalgorithm": "algorithm", "jetradius": "radius", "jetpt": "min_pt"}),
                        ("LeptonDefinition", "JetDefinition", {"leptonalgorithm": "algorithm", "leptonradius": "radius", "leptonpt": "min_pt"}),
                        ("PhotonDefinition", "PhotonDefinition", {"photonefrac": "min_e_fraction", "photonradius": "radius", "photonpt": "min_pt"})):
        s, d = "opt_common::" + src, "cres::cluster::" + dst
        ens, req = fields(cb, s, d, m)
        add("bin-cres", "opt_common::<impl std::convert::From<%s> for %s>::from" % (s, d), requires=req, ensures=ens)
    return out
