"""bin/classify-events.rs: each event record goes to the file of its region.

Writers are known by the path they write to; everything written is entered into a ghost log.
"""
from contracts.common import *
from contracts import options

CR = "bin-cres_classify_events"
LOG = ("LOG",)
AI = z3.ArraySort(I, I)
AA = z3.ArraySort(I, AI)
F = z3.Function
OPT, RES = "std::option::Option", "std::result::Result"
# texts: arrays of bytes
TEXTA, TEXTN = F("record_text", I, AI), F("record_length", I, I)
HEADA, HEADN = z3.Const("header_text", AI), z3.Int("header_length")
NRECS = z3.Int("records_in_file")
NREG = z3.Int("regions")
EVENT = F("event_of_record", I, I)
CLUST = F("clustered_event", I, I)
REGION = F("region_of_event", I, I)
TRIM = F("length_without_trailing_space", AI, I, I)      # of text[0..n]
ATRIM = F("length_without_trailing_ascii_space", AI, I, I)
ENDS = F("ends_in_footer", AI, I, I, B)                 # text[0..n] ends in the footer of a format
FOOTERS = {"HepMC2": b"HepMC::IO_GenEvent-END_EVENT_LISTING", "Lhef": b"</LesHouchesEvents>", "StripperXml": b"</Eventrecord>"}
# names of output files
NUM = F("number_in_name", I, I)
JOIN = F("file_in_directory", I, I, I)
DIR, NAME = F("directory_of", I, I), F("name_of", I, I)


def is_bytes(v):
    return isinstance(v, SeqV)


def contracts(crate, multi):
    return []


def bincontracts(crates, multi):
    crate = crates[CR]
    FF = {v["n"]: i for i, v in enumerate(crate.adts["cres::formats::FileFormat"]["variants"])}
    foot = {FF[n]: FOOTERS[n] for n in FF}

    def flen(fmt):
        r = z3.IntVal(0)
        for d, b in foot.items():
            r = z3.If(fmt == d, z3.IntVal(len(b)), r)
        return r

    def ends(arr, n, fmt):
        """text[0..n] ends in the footer"""
        return z3.And([z3.Implies(fmt == d, z3.And(n >= len(b), *[z3.Select(arr, n - len(b) + i) == x for i, x in enumerate(b)])) for d, b in foot.items()])

    def ends_def(arr, n, fmt):
        return ENDS(arr, n, fmt) == ends(arr, n, fmt)

    def cut(trim, arr, n, fmt):
        """length of a text without its footer"""
        return z3.If(ENDS(arr, trim(arr, n), fmt), trim(arr, n) - flen(fmt), n)

    def whole(eng, st, v):
        v = models.ld(eng, st, v)
        return v if is_bytes(v) and is0(v.off) and len(v.lv) == 1 else None

    # ------------------------------------------------------------ models
    def m_trim(T):
        def model(eng, st, a, info):
            v = whole(eng, st, a[0])
            if v is None:
                return NotImplemented
            m = T(v.lv[0], zi(v.n))
            st.fact(m >= 0, m <= zi(v.n))
            return [(st, SeqV(v.sh, v.lv, 0, m))]
        return model

    def m_strip(eng, st, a, info):
        v, f = whole(eng, st, a[0]), whole(eng, st, a[1])
        if v is None or f is None:
            return NotImplemented
        n, m = zi(v.n), zi(f.n)
        k = z3.simplify(m)
        if z3.is_int_value(k):
            same = z3.And(n >= m, *[z3.Select(v.lv[0], n - m + i) == z3.Select(f.lv[0], i) for i in range(k.as_long())])
        else:
            same = z3.And(n >= m, forall(m, lambda i: z3.Select(v.lv[0], n - m + i) == z3.Select(f.lv[0], i)))
        return [(s, models.some(SeqV(v.sh, v.lv, 0, n - m)) if b else models.none()) for s, b in models.fork(eng, st, same)]

    def strconst(eng, st, s):
        a = z3.Const("text:" + s, AI)
        bs = s.encode()
        st.fact(*[z3.Select(a, i) == x for i, x in enumerate(bs)])
        return SeqV(("z", I), [a], 0, len(bs))

    def log(st):
        return st.store[LOG].f

    def m_write(eng, st, a, info):
        w = models.ld(eng, st, a[0])
        v = whole(eng, st, a[1])
        if v is None or not (isz(w) and w.sort() == I):
            return NotImplemented
        n, lw, la, ln, bad, rp = log(st)
        fail = st.copy()
        eng.assign(fail, Ptr(LOG), Agg("log", [n, lw, la, ln, z3.BoolVal(True), rp]))
        eng.assign(st, Ptr(LOG), Agg("log", [n + 1, z3.Store(lw, n, w), z3.Store(la, n, v.lv[0]), z3.Store(ln, n, zi(v.n)), bad, rp]))
        return [(st, models.ok(UNIT)), (fail, models.err(Opaque("io::Error")))]

    def m_reader(eng, st, a, info):
        return [(st, models.ok(Agg("reader", []))), (st.copy(), models.err(Opaque("CreateError")))]

    def reader(eng, st, v):
        v = models.ld(eng, st, v)
        return isinstance(v, Agg) and v.ty == "reader"

    def m_header(eng, st, a, info):
        if not reader(eng, st, a[0]):
            return NotImplemented
        return [(st, SeqV(("z", I), [HEADA], 0, HEADN))]

    def m_hint(eng, st, a, info):
        if not reader(eng, st, a[0]):
            return NotImplemented
        lo, hi, d = fresh("lo", I), fresh("hi", I), fresh("has", I)
        st.fact(0 <= lo, lo < 2 ** 31, 0 <= hi, hi < 2 ** 31, z3.Or(d == 0, d == 1))
        return [(st, Agg("tuple", [lo, EnumV(OPT, d, {0: Agg(OPT, []), 1: Agg(OPT, [hi])})]))]

    def m_next(eng, st, a, info):
        if not reader(eng, st, a[0]):
            return NotImplemented
        f = log(st)
        k = f[5]
        bad = st.copy()
        out = [(bad, EnumV(OPT, 1, {1: Agg(OPT, [models.err(Opaque("ReadError"))])}))]
        for s, b in models.fork(eng, st, k < NRECS):
            if b:
                s.fact(TEXTN(k) >= 0)
                eng.assign(s, Ptr(LOG), Agg("log", list(f[:5]) + [k + 1]))
                out.append((s, EnumV(OPT, 1, {1: Agg(OPT, [models.ok(k)])})))
            else:
                out.append((s, EnumV(OPT, 0, {0: Agg(OPT, [])})))
        return out

    def same(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        return [(st, v)] if isz(v) and v.sort() == I or isinstance(v, Agg) and v.ty == "reader" else NotImplemented

    def m_convert(eng, st, a, info):
        r = models.ld(eng, st, a[1])
        return [(st, models.ok(EVENT(zi(r)))), (st.copy(), models.err(Opaque("ErrorKind")))]

    def m_cluster(eng, st, a, info):
        return [(st, models.ok(CLUST(zi(models.ld(eng, st, a[1])))))]

    def m_region(eng, st, a, info):
        r = REGION(zi(models.ld(eng, st, a[1])))
        st.fact(0 <= r, r < NREG)
        return [(st, r)]

    def m_len(eng, st, a, info):
        return [(st, NREG)]

    def m_text(eng, st, a, info):
        r = models.ld(eng, st, a[0])
        if not (isz(r) and r.sort() == I):
            return NotImplemented
        return [(st, models.ok(SeqV(("z", I), [TEXTA(r)], 0, TEXTN(r))))]

    def nothing(eng, st, a, info):
        return [(st, Opaque("progress"))]

    def unit(eng, st, a, info):
        return [(st, UNIT)]

    mods = {"strconst": strconst, "std::str::<impl str>::trim_end": m_trim(TRIM), "core::str::<impl str>::trim_end": m_trim(TRIM),
            "core::slice::ascii::<impl [u8]>::trim_ascii_end": m_trim(ATRIM),
            "core::str::<impl str>::strip_suffix": m_strip, "core::slice::<impl [T]>::strip_suffix": m_strip,
            "std::io::Write::write_all": m_write, "cres::io::FileReader::try_new": m_reader, "cres::io::EventFileReader::header": m_header,
            "std::iter::Iterator::size_hint": m_hint, "std::iter::Iterator::next": m_next, "std::iter::IntoIterator::into_iter": same, "std::clone::Clone::clone": same,
            "cres::traits::TryConvert::try_convert": m_convert, "cres::traits::Clustering::cluster": m_cluster,
            "cres::partition::VPTreePartition::<P, DF>::region": m_region, "cres::partition::VPTreePartition::<P, DF>::len": m_len,
            "std::convert::TryFrom::try_from": m_text, "std::ops::Deref::deref": same,
            "cres::progress_bar::ProgressBar::new": nothing, "std::default::Default::default": nothing, "cres::progress_bar::Progress::inc": unit, "cres::traits::Progress::inc": unit}
    mods = {k: options.chain(k, f) for k, f in mods.items()}
    TOKS = {p: ("z", I) for p in ("cres::io::EventRecord", "cres::event::Event", "cres::partition::VPTreePartition", "cres::io::Converter", "cres::cluster::DefaultClustering",
                                  "std::path::PathBuf", "std::path::Path", "std::boxed::Box", "impl Write")}
    out = []

    def add(path, models_=mods, tyover=TOKS, **k):
        con = Contract(path, props=("C20",), **k)
        con.crate, con.models, con.tyover = CR, models_, tyover
        out.append(con)
        return con

    # ------------------------------------------------------------ footers
    def tf_req(c):
        e = c.a[0]
        return [("a text", z3.And(zi(e.n) >= 0, ends_def(e.lv[0], TRIM(e.lv[0], zi(e.n)), zi(c.a[1].d))))] if not c.caller else []

    def tf_ret(c):
        e = whole(c.eng, c.st, c.a[0])
        if e is None:
            raise Unsupported("text with an offset")
        return SeqV(e.sh, e.lv, 0, cut(TRIM, e.lv[0], zi(e.n), zi(c.a[1].d)))

    def tf_ens(c):
        e, r = c.a[0], c.ret
        n = cut(TRIM, e.lv[0], zi(e.n), zi(c.a[1].d))
        return [("the text up to the footer", z3.And(zi(r.n) == n, r.lv[0] == e.lv[0], zi(r.off) == 0)),
                ("a part of the text", z3.And(0 <= zi(r.n), zi(r.n) <= zi(e.n)))]
    tf = add("trim_footer", ensures=tf_ens, returns=tf_ret)
    tf.facts = lambda c: [ends_def(c.a[0].lv[0], TRIM(c.a[0].lv[0], zi(c.a[0].n)), zi(c.a[1].d)),
                          TRIM(c.a[0].lv[0], zi(c.a[0].n)) >= 0, TRIM(c.a[0].lv[0], zi(c.a[0].n)) <= zi(c.a[0].n)]

    # ------------------------------------------------------------ writers
    def numbered(c, v, d, n):
        return z3.And(zi(v.off) == 0, zi(v.n) == n, forall(n, lambda k: z3.And(NUM(NAME(sel(v, k))) == k, DIR(sel(v, k)) == d), lambda k: sel(v, k)))

    def mw_ens(c):
        n, d, r = zi(c.a[0]), zi(c.a[1]), c.ret
        v = r.pay.get(0)
        v = v.f[0] if v is not None else None
        if isinstance(r.d, int) and r.d != 0 or v is None:
            return []
        return [("one file in the output directory for each region, under its number", z3.Implies(zi(r.d) == 0, numbered(c, v, d, n)))]

    def mw_ret(c):
        n = zi(c.a[0])
        w = SeqV(("z", I), [fresh("writers", AI)], 0, n)
        s1, s2 = c.st.copy(), c.st.copy()
        s1.trace = s1.trace + (("writers", w),)
        return [(s1, models.ok(w)), (s2, models.err(Opaque("anyhow::Error")))]

    def some_or_none(f):
        def model(eng, st, a, info):
            v = models.ld(eng, st, a[0])
            if not options.is_tok(v):
                return NotImplemented
            b = fresh("has", B)
            return [(s, models.some(f(v)) if x else models.none()) for s, x in models.fork(eng, st, b)]
        return model
    FNAME, PRE, SUF = F("file_name", I, I), F("name_before_dot", I, I), F("name_after_dot", I, I)

    def m_arg(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        while isinstance(v, Ptr):
            v = eng.load(st, v)
        return [(st, Agg("fmtarg", [v, info.targs[:1] and info.targs[0]["k"] == "int"]))]

    def m_args(eng, st, a, info):
        t, l = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
        if not (isinstance(t, Opaque) and "bytes" in t.info and isinstance(l, Agg)):
            return NotImplemented
        return [(st, Agg("fmtargs", [t] + list(l.f)))]

    def m_format(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        if not (isinstance(v, Agg) and v.ty == "fmtargs"):
            return NotImplemented
        ints = [x.f[0] for x in v.f[1:] if x.f[1]]
        t = fresh("text", I)
        if len(ints) == 1:
            # all else equal, texts with different numbers are different
            st.fact(NUM(t) == zi(ints[0]))
        return [(st, t)]

    def m_join(eng, st, a, info):
        v = models.ld(eng, st, a[0])
        if not (isinstance(v, Agg) and len(v.f) == 2):
            return NotImplemented
        d, n = (zi(models.ld(eng, st, x)) for x in v.f)
        p = JOIN(d, n)
        st.fact(DIR(p) == d, NAME(p) == n)
        return [(st, p)]

    def m_join2(eng, st, a, info):
        return m_join(eng, st, [Agg("array", [models.ld(eng, st, x) for x in a])], info)

    def m_create(eng, st, a, info):
        p = zi(models.ld(eng, st, a[0]))
        return [(st, models.ok(p)), (st.copy(), models.err(Opaque("io::Error")))]

    def m_compress(eng, st, a, info):
        w, k = models.ld(eng, st, a[0]), models.ld(eng, st, a[1])
        eng.oblige(st, models.eq(eng, st, k, eng.cur_ctx.a[3]), "the requested compression is used", "assert")
        return [(st, models.ok(w)), (st.copy(), models.err(Opaque("io::Error")))]

    wm = dict(options.TOKMODELS)
    wm.pop("static")
    wm.update({"bytesconst": lambda eng, st, b: Opaque("bytes", None, {"bytes": list(b)}),
               "std::path::Path::file_name": some_or_none(FNAME), "std::ffi::OsStr::to_str": some_or_none(lambda v: v),
               "core::str::<impl str>::split_once": some_or_none(lambda v: Agg("tuple", [PRE(v), SUF(v)])),
               "core::fmt::rt::Argument::<'_>::new_display": m_arg, "core::fmt::rt::Argument::<'_>::new_debug": m_arg,
               "std::fmt::Arguments::<'a>::new": m_args, "std::fmt::format": m_format, "alloc::fmt::format": m_format,
               "std::iter::FromIterator::from_iter": m_join, "std::path::Path::join": m_join2, "std::path::PathBuf::as_path": same, "std::convert::From::from": same,
               "std::hint::must_use": lambda eng, st, a, info: [(st, a[0])],
               "std::fs::File::create": m_create, "std::io::BufWriter::<W>::new": same, "cres::compression::compress_writer": m_compress})
    wm = {k: options.chain(k, f) for k, f in wm.items()}
    WT = dict(TOKS)
    WT.update({"str": ("z", I), "std::string::String": ("z", I), "std::ffi::OsStr": ("z", I), "std::fs::File": ("z", I), "std::io::BufWriter": ("z", I)})

    def mw_loop(L):
        r = L.v("res")
        return [("files so far", numbered(None, r, zi(L.call.a[1]), zi(L.it().pos)))]
    add("make_byte_writers", wm, WT, requires=lambda c: [("few regions", z3.And(0 <= zi(c.a[0]), zi(c.a[0]) < 2 ** 31))], ensures=mw_ens, returns=mw_ret, loops={0: LoopSpec(mw_loop)})

    # ------------------------------------------------------------ routing
    def pre(eng, st):
        st.store[LOG] = Agg("log", [z3.IntVal(0), z3.Const("log_writer", AI), z3.Const("log_text", AA), z3.Const("log_length", AI), z3.BoolVal(False), z3.IntVal(0)])

    def req(c):
        k = fresh("k", I)
        return [("numbers of records and regions", z3.And(0 <= NRECS, NRECS < 2 ** 60, 0 <= NREG, NREG < 2 ** 31, HEADN >= 0, HEADN < 2 ** 60)),
                ("texts", z3.ForAll([k], z3.And(TEXTN(k) >= 0, TEXTN(k) < 2 ** 60), patterns=[TEXTN(k)]))]

    def entry(st, t, w, arr, n):
        _, lw, la, ln, _, _ = log(st)
        return z3.And(z3.Select(lw, t) == w, z3.Select(la, t) == arr, z3.Select(ln, t) == n)

    def reg(k):
        return REGION(CLUST(EVENT(k)))

    def headers(st, w, upto, fmt):
        return forall(upto, lambda i: entry(st, i, sel(w, i), HEADA, cut(ATRIM, HEADA, HEADN, fmt)), lambda i: [z3.Select(log(st)[1], i), sel(w, i)])

    def records(st, w, upto, fmt):
        k = fresh("k", I)
        b = lambda k: z3.And(0 <= reg(k), reg(k) < NREG, entry(st, NREG + k, sel(w, reg(k)), TEXTA(k), cut(TRIM, TEXTA(k), TEXTN(k), fmt)))
        return forall(upto, b, lambda k: [REGION(CLUST(EVENT(k))), TEXTN(k)])

    def footer_at(st, t, w, fmt):
        _, lw, la, ln, _, _ = log(st)
        fa = [z3.Implies(fmt == d, z3.Select(la, t) == z3.Const("text:" + b.decode(), AI)) for d, b in foot.items()]
        return z3.And(z3.Select(lw, t) == w, z3.Select(ln, t) == flen(fmt), *fa)

    def newline_at(st, t, w):
        _, lw, la, ln, _, _ = log(st)
        return z3.And(z3.Select(lw, t) == w, z3.Select(ln, t) == 1, z3.Select(z3.Select(la, t), 0) == 10)

    def footers(st, w, upto, fmt):
        p = fresh("i", I)
        base = NREG + NRECS
        FT = F("footer_entry", I, I)
        return forall(upto, lambda i: z3.And(FT(i) == base + 2 * i, footer_at(st, FT(i), sel(w, i), fmt), newline_at(st, FT(i) + 1, sel(w, i))), lambda i: [FT(i), sel(w, i)])

    def writers(L):
        t = [x for x in L.call.st.trace if x[0] == "writers"] or [x for x in L.entry.trace if x[0] == "writers"]
        if len(t) != 1:
            raise Unsupported("the writers are not made exactly once")
        return t[0][1]

    def fmt_of(c):
        return zi(c.a[2].d)

    def glob(L):
        FT, i = F("footer_entry", I, I), fresh("i", I)
        L.lemma(ends_def(HEADA, ATRIM(HEADA, HEADN), fmt_of(L.call)), z3.ForAll([i], FT(i) == NREG + NRECS + 2 * i, patterns=[FT(i)]))

    def l0(L):
        glob(L)
        w = writers(L)
        n, _, _, _, bad, rp = log(L.st)
        return [("no write has failed", z3.And(z3.Not(bad), rp == 0)), ("headers so far", z3.And(n == zi(L.it().pos), headers(L.st, w, n, fmt_of(L.call))))]

    def l1(L):
        glob(L)
        w = writers(L)
        n, _, _, _, bad, rp = log(L.st)
        return [("no write has failed", z3.And(z3.Not(bad), 0 <= rp, rp <= NRECS)),
                ("one entry per record", n == NREG + rp),
                ("headers", headers(L.st, w, NREG, fmt_of(L.call))), ("records so far", records(L.st, w, rp, fmt_of(L.call)))]

    def l2(L):
        glob(L)
        w = writers(L)
        n, _, _, _, bad, rp = log(L.st)
        i = zi(L.it().pos)
        return [("all records are read", rp == NRECS), ("length of the log", z3.And(n >= NREG + NRECS, z3.Implies(z3.Not(bad), n == NREG + NRECS + 2 * i))),
                ("headers", headers(L.st, w, NREG, fmt_of(L.call))), ("records", records(L.st, w, NRECS, fmt_of(L.call))),
                ("footers so far", z3.Implies(z3.Not(bad), footers(L.st, w, i, fmt_of(L.call))))]

    def ens(c):
        r = c.ret
        t = [x for x in c.st.trace if x[0] == "writers"]
        if isinstance(r.d, int) and r.d == 1:
            return []
        if len(t) != 1:
            return [("success only after writing", z3.BoolVal(False))]
        w = t[0][1]
        ok = zi(r.d) == 0
        fmt = fmt_of(c)
        n, _, _, _, bad, rp = log(c.st)
        return [("all records are read", z3.Implies(ok, rp == NRECS)),
                ("one output per region", z3.Implies(ok, zi(w.n) == NREG)),
                ("every output starts with the header", z3.Implies(ok, headers(c.st, w, NREG, fmt))),
                ("each record is written once, in order, to the file of its event's region", z3.Implies(ok, records(c.st, w, NRECS, fmt))),
                ("every output ends with one footer", z3.Implies(z3.And(ok, z3.Not(bad)), footers(c.st, w, NREG, fmt))),
                ("nothing else is written", z3.Implies(z3.And(ok, z3.Not(bad)), n == NREG + NRECS + 2 * NREG))]
    main = add("Classifier::classify_byte_records", requires=req, ensures=ens, pre=pre, loops={0: LoopSpec(l0), 1: LoopSpec(l1), 2: LoopSpec(l2)})
    main.facts = lambda c: [ends_def(HEADA, ATRIM(HEADA, HEADN), fmt_of(c)), (lambda i: z3.ForAll([i], F("footer_entry", I, I)(i) == NREG + NRECS + 2 * i, patterns=[F("footer_entry", I, I)(i)]))(fresh("i", I))]
    return out
