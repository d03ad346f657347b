"""io.rs: which format a file has, and that each format is read, converted and written as what it is."""
from contracts.common import *
from contracts.text import *
from contracts import formats
from contracts.formats import okv, isok, RECNAME
from contracts.scaling import AFTERW


def contracts(crate, multi):
    _, ns = formats.build(crate, multi)
    cs = []
    FMT = {v["n"]: i for i, v in enumerate(crate.adts["formats::FileFormat"]["variants"])}
    KIND = {"hepmc2": "HepMC2", "lhef": "Lhef", "stripper_xml": "StripperXml"}
    P = ("C13", "C14")

    # ------------------------------------------------------------ the format is seen from the first bytes
    def m_fill(eng, st, a, info):
        """the first bytes of a file, at least 64 of them if it has so many"""
        v = models.ld(eng, st, a[0])
        while isinstance(v, Ptr):
            v = models.ld(eng, st, v)
        if not (isinstance(v, Agg) and v.ty == "stream"):
            return NotImplemented
        arr, p, e = v.f
        st, bad = st.copy(), st.copy()
        n = fresh("buffered", I)
        st.fact(0 <= n, n <= e - p, z3.Or(n >= 64, n == e - p))
        buf = view(arr, p, S(p + n))
        st.trace = st.trace + (("buffer", buf),)
        return [(st, models.ok(buf)), (bad, models.err(Opaque("std::io::Error")))]

    def de_ens(c):
        r = c.ret
        bufs = [t[1] for t in c.st.trace if t[0] == "buffer"]
        if c.caller:
            # callers see the outcomes, one by one
            return []
        if not bufs:
            return [] if okv(r) is None else [("a file that cannot be read is taken for a HepMC file", z3.Implies(isok(r), zi(okv(r).d) == FMT["HepMC2"]))]
        arr, p, e = parts(bufs[0])
        w = AFTERW(arr, p, e)
        path = zi(models.ld(c.eng, c.st, c.a[0]))
        if okv(r) is None:
            root, xml = at(arr, p, b"root", e), at(arr, AFTERW(arr, p, e), b"<?xml", e)
            return [("only files of unsupported formats are rejected", z3.Or(root, *([] if "StripperXml" in FMT else [xml])))]
        root, xml = at(arr, p, b"root", e), at(arr, w, b"<?xml", e)
        lhe = at(arr, p, b"<LesHouchesEvents", e)
        d = zi(okv(r).d)
        out = [("the file asked for is looked at", z3.And(arr == CONTENT(path), p == 0)), ("ROOT files are not taken for anything else", z3.Implies(root, z3.Not(isok(r))))]
        x = z3.BoolVal("StripperXml" in FMT)
        if "StripperXml" in FMT:
            out.append(("XML files are STRIPPER XML files", z3.Implies(z3.And(isok(r), xml), d == FMT["StripperXml"])))
        if "Lhef" in FMT:
            out.append(("Les Houches event files start with their tag", z3.Implies(z3.And(isok(r), z3.Not(xml), lhe), d == FMT["Lhef"])))
        return out + [("all other files are HepMC files", z3.Implies(z3.And(isok(r), z3.Not(xml), z3.Not(lhe)), d == FMT["HepMC2"]))]

    def de_ret(c):
        path = zi(models.ld(c.eng, c.st, c.a[0]))
        out = []
        for n, d in FMT.items():
            if n in KIND.values():
                s = c.st.copy()
                s.trace = s.trace + (("format", n, path),)
                out.append((s, models.ok(EnumV("formats::FileFormat", d, {d: Agg("formats::FileFormat", [])}))))
        s = c.st.copy()
        s.trace = s.trace + (("format", None, path),)
        return out + [(s, models.err(Opaque("CreateError")))]

    def add(path, facts=None, mods=None, props=P, **kw):
        con = text(Contract(path, props=props, **kw), **(mods or {}))
        con.tyover = dict(TYOVER)
        if facts:
            con.facts = facts
        cs.append(con)
        return con
    fills = {k: m_fill for k in ("std::io::BufRead::fill_buf", "alloc::io::impls::<impl std::io::BufRead for std::boxed::Box<B, A>>::fill_buf")}
    con = add("io::detect_event_file_format", mods=fills, ensures=de_ens, returns=de_ret)
    con.uses = ("util::trim_ascii_start",)

    # ------------------------------------------------------------ the format's own reader and writer are used
    def boxed(v):
        while isinstance(v, Agg) and v.ty not in [m + x for m in KIND for x in ("::FileReader", "::FileIO")] and len(v.f) == 1:
            v = v.f[0]
        return v

    def seen(c, path):
        f = [t for t in c.st.trace if t[0] == "format"]
        return f[0] if len(f) == 1 else None

    def rd_ens(c):
        r = c.ret
        path = zi(c.a[0])
        f = seen(c, path)
        if f is None:
            return [("the format is looked up once", z3.BoolVal(False))]
        if okv(r) is None:
            return []
        v = boxed(okv(r))
        m = next((m for m in KIND if isinstance(v, Agg) and v.ty == m + "::FileReader"), None)
        if m is None:
            return [("a reader for event files", z3.Not(isok(r)))]
        out = [("the reader of the format of the file", z3.BoolVal(KIND[m] == f[1])), ("the format of the file asked for", z3.And(f[2] == path, zi(ns.rd(v, m, "source_path")) == path))]
        out += ns.opened(m, path, ns.rd(v, m, "header"), ns.rd(v, m, "source"))
        return [(l, z3.Implies(isok(r), g)) for l, g in out]
    XML = {"stripper_xml::extract_nsubevents": ns.m_info, "stripper_xml::extract_xml_info": ns.m_tag_of} if "stripper_xml" in ns.FORMATS else {}
    con = add("io::FileReader::try_new", mods=XML, ensures=rd_ens)
    con.uses = ("io::detect_event_file_format",) + tuple(m + "::init_source" for m in ns.FORMATS)

    # an input and an output
    BI = [f["n"] for f in crate.adts["io::IOBuilder"]["variants"][0]["f"]]

    def bf_ens(c):
        r = c.ret
        path, sink = zi(c.a[1]), zi(c.a[2])
        f = seen(c, path)
        if f is None:
            return [("the format is looked up once", z3.BoolVal(False))]
        if okv(r) is None:
            return []
        v = boxed(okv(r))
        m = next((m for m in KIND if isinstance(v, Agg) and v.ty == m + "::FileIO"), None)
        if m is None:
            return [("event input and output", z3.Not(isok(r)))]
        R = ns.fio(v, m, "reader")
        out = [("of the format of the file", z3.BoolVal(KIND[m] == f[1])), ("of the format of the file asked for", z3.And(f[2] == path, zi(ns.rd(R, m, "source_path")) == path)),
               ("the output asked for", zi(ns.fio(v, m, "sink_path")) == sink)]
        out += ns.opened(m, path, ns.rd(R, m, "header"), ns.rd(R, m, "source"))
        w0, w1 = c.a[0].f[BI.index("weight_names")], ns.fio(v, m, "_weight_names")
        out.append(("the weights asked for", z3.And(zi(w0.n) == zi(w1.n), *[p == q for p, q in zip(w0.lv, w1.lv)])))
        if m == "stripper_xml":
            h = ns.rd(R, m, "header")
            sc = c.a[0].f[BI.index("scaling")]
            nm = RECNAME(h.lv[0], zi(h.n))
            out.append(("the scale of its contribution", z3.And(sc.has([nm]), ns.fio(v, m, "weight_scale") == sc.get([nm]))))
        return [(l, z3.Implies(isok(r), g)) for l, g in out]
    con = add("io::IOBuilder::build_from_files", mods=XML, ensures=bf_ens)
    con.inline = True       # contracts about several files see files as wholes
    con.tyover["std::string::String"] = ("z", I)
    con.uses = ("io::detect_event_file_format",) + tuple(m + "::FileIO::try_new" for m in ns.FORMATS)

    # ------------------------------------------------------------ conversion
    EV = ns.EV

    def tc_req(c):
        rec = c.a[1]
        out = []
        for m in ns.FORMATS:
            k = EV[ns.KINDREC[m]]
            if rec.pay.get(k) is not None:
                arr, p, e = parts(rec.pay[k].f[0])
                here = zi(rec.d) == k
                out.append(("a text (%s)" % m, z3.Implies(here, z3.And(0 <= p, p <= e, e < 2 ** 59))))
                if m == "stripper_xml":
                    out.append(("it does not end with the start of a particle", z3.Implies(here, z3.Not(at(arr, S(e - 2), b'">', e)))))
        if multi:
            n = models.ld(c.eng, c.st, c.a[0]).f[0].n
            out.append(("names", z3.And(0 <= n, n < 2 ** 60)))
        return out

    def tc_ens(c):
        r, rec = c.ret, c.a[1]
        ps = [t for t in c.st.trace if t[0] == "parsed"]
        if len(ps) != 1:
            return [("the record is parsed once", z3.BoolVal(False))]
        _, m, t, ev = ps[0]
        k = EV[ns.KINDREC[m]]
        out = [("it is parsed in its own format", zi(rec.d) == k)]
        if rec.pay.get(k) is not None:
            x = rec.pay[k].f[0]
            out.append(("all of it is parsed", z3.And(t.lv[0] == x.lv[0], zi(t.off) == zi(x.off), zi(t.n) == zi(x.n))))
        if okv(ev) is None or okv(r) is None:
            return out + [("a failure is reported", isok(r) == isok(ev))]
        return out + [("what is parsed is returned", z3.And(isok(r) == isok(ev), z3.Implies(isok(ev), eqv(okv(r), okv(ev)))))]
    con = add("<io::Converter as traits::TryConvert<io::EventRecord, event::Event>>::try_convert", requires=tc_req, ensures=tc_ens)
    con.tyover["io::Converter"] = ("agg", "io::Converter", [("seq", ("z", I))] if multi else [])
    con.uses = tuple("<io::Converter as %s>::%s" % x for m, x in (("hepmc2", ("hepmc2::HepMCParser", "parse_hepmc")), ("lhef", ("lhef::LHEFParser", "parse_lhef")),
                     ("stripper_xml", ("stripper_xml::StripperXmlParser", "parse_stripper_xml"))) if m in ns.FORMATS)
    return cs
