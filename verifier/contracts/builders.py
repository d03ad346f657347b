"""constructors and builders: what is given is what is used."""
from contracts.common import *
from values import *

OPT = "std::option::Option"
PATH = "std::path::PathBuf"


def contracts(crate, multi):
    cs = []
    names = lambda p: [f["n"] for f in crate.adts[p]["variants"][0]["f"]]

    def add(path, props, ensures, **kw):
        if path not in crate.bypath:
            return None
        con = Contract(path, ensures=ensures, props=props, **kw)
        con.inline = True
        con.tyover = {PATH: ("z", I), "cluster::JetDefinition": ("z", I), "cluster::PhotonDefinition": ("z", I), "std::string::String": ("z", I), "std::collections::HashMap": ("z", I)}
        cs.append(con)
        return con

    def same(label, a, b):
        return (label, eqv(a, b))

    # ------------------------------------------------------------ cres.rs
    parts = ("event_io", "converter", "clustering", "resampler", "unweighter")
    B_, C_ = names("cres::CresBuilder"), names("cres::Cres")

    def moved(src, dst):
        return lambda c: [same("the same %s" % p, c.ret.f[dst.index(p)], c.a[0].f[src.index(p)]) for p in parts]
    add("cres::CresBuilder::<R, C, Cl, S, U>::build", ("C11",), moved(B_, C_))
    add("<cres::Cres<R, C, Cl, S, U> as std::convert::From<cres::CresBuilder<R, C, Cl, S, U>>>::from", ("C11",), moved(B_, C_))
    add("<cres::CresBuilder<R, C, Cl, S, U> as std::convert::From<cres::Cres<R, C, Cl, S, U>>>::from", ("C11",), moved(C_, B_))

    # ------------------------------------------------------------ cluster.rs
    D = names("cluster::DefaultClustering")
    none = lambda v: zi(v.d) == 0
    f = lambda v, n: v.f[D.index(n)]
    some = lambda v, x: z3.And(zi(v.d) == 1, eqv(v.pay[1].f[0], x)) if v.pay.get(1) is not None else z3.BoolVal(False)

    def kept(c, *but):
        return [same("%s is kept" % n, f(c.ret, n), f(c.a[0], n)) for n in D if n not in but]
    P = ("C15",)
    CL = "cluster::DefaultClustering::"
    add(CL + "new", P, lambda c: [same("the jet definition", f(c.ret, "jet_def"), c.a[0]), ("no lepton dressing", none(f(c.ret, "lepton_def"))), ("no photon isolation", none(f(c.ret, "photon_def"))),
                                  ("neutrinos are dropped", z3.Not(zb(f(c.ret, "include_neutrinos"))))])
    add(CL + "with_lepton_def", P, lambda c: [("the lepton definition", some(f(c.ret, "lepton_def"), c.a[1]))] + kept(c, "lepton_def"))
    add(CL + "with_photon_def", P, lambda c: [("the photon definition", some(f(c.ret, "photon_def"), c.a[1]))] + kept(c, "photon_def"))
    add(CL + "include_neutrinos", P, lambda c: [same("whether neutrinos are kept", f(c.ret, "include_neutrinos"), c.a[1])] + kept(c, "include_neutrinos"))

    # ------------------------------------------------------------ unweight.rs, seeds.rs
    U = names("unweight::Unweighter")
    add("unweight::Unweighter::<R>::new", ("C09",), lambda c: [same("the threshold", c.ret.f[U.index("min_wt")], c.a[0]), same("the random numbers", c.ret.f[U.index("rng")], c.a[1])])
    add("seeds::StrategicSelector::new", ("C08",), lambda c: [same("the strategy", c.ret.f[0], c.a[0])])

    # ------------------------------------------------------------ io.rs
    F_ = ("C13", "C14")
    if multi:
        add("io::Converter::new", F_, lambda c: [("no further weights", zi(c.ret.f[0].n) == 0)])
        add("io::Converter::with_weights", F_, lambda c: [same("the names of the weights", c.ret.f[0], c.a[0])])
        add("io::Converter::weight_names", F_, lambda c: [same("the names of the weights", models.ld(c.eng, c.st, c.ret), c.old(0).f[0])])
    IB = names("io::IOBuilder")

    def setter(name):
        def ens(c):
            new = models.ld(c.eng, c.st, c.ret)
            return [same("%s is %s" % (n, "set" if n == name else "kept"), new.f[IB.index(n)], c.a[1] if n == name else c.old(0).f[IB.index(n)]) for n in IB]
        return ens
    for n in ("compression", "weight_names"):
        add("io::IOBuilder::" + n, ("C12",), setter(n), modifies={0: [()]})

    IOF = names("io::IOFiles")
    PAIR = ("agg", "tuple", [("z", I), ("z", I)])

    def m_new(eng, st, a, info):
        good, bad = st.copy(), st.copy()
        out = fresh("reader", I)
        for s, x in ((good, out), (bad, None)):
            s.trace = s.trace + (("new", a[0], a[1], x),)
        return [(good, models.ok(out)), (bad, models.err(Opaque("FileIOError")))]

    def known_ens(c):
        t = [t for t in c.st.trace if t[0] == "new"]
        if len(t) != 1:
            return [("one reader for all files", z3.BoolVal(False))]
        _, v, b, x = t[0]
        given = c.a[1]
        k = fresh("k", I)
        r = c.ret
        out = [("as many files as given", zi(v.n) == zi(given.n)),
               ("each input with its output", FA([k], z3.Implies(z3.And(0 <= k, k < zi(given.n)), z3.And(sel(v, k).f[IOF.index("infile")] == sel(given, k).f[0], sel(v, k).f[IOF.index("outfile")] == sel(given, k).f[1])),
                                                [sel(given, k).f[0], sel(given, k).f[1]])),
               same("with the settings given", b, c.a[0])]
        return out + [("the reader or the error is returned", z3.And(zi(r.d) == 0, r.pay[0].f[0] == x) if x is not None else zi(r.d) == 1)]
    m_same = lambda eng, st, a, info: [(st, models.ld(eng, st, a[0]))]


    con = add("io::IOBuilder::build_from_files_iter_known_scaling", ("C12",), known_ens, requires=lambda c: [("a list", zi(c.a[1].n) >= 0)])
    if con:
        con.without = ("io::CombinedFileIO::new",)
        con.tyover.update({"I": ("seq", PAIR), "P": ("z", I), "Q": ("z", I), "compression::Compression": ("z", I), "io::CombinedFileIO": ("z", I)})
        con.models = {"io::CombinedFileIO::new": m_new, "std::convert::AsRef::as_ref": m_same, "std::path::Path::to_path_buf": m_same}

    if multi or "stripper_xml::extract_scaling" in crate.bypath:
        VP = ("seq", ("agg", "tuple", [("z", I), ("z", I)]))

        def m_extract(eng, st, a, info):
            good, bad = st.copy(), st.copy()
            v, m = fresh_of(VP, "event_files"), fresh("scaling", I)
            st.fact(zi(v.n) >= 0)
            good.trace = good.trace + (("scaling", a[0], v, m),)
            bad.trace = bad.trace + (("scaling", a[0], None, None),)
            return [(good, models.ok(Agg("tuple", [v, m]))), (bad, models.err(Opaque("CreateError")))]

        def m_known(eng, st, a, info):
            good, bad = st.copy(), st.copy()
            x = fresh("reader", I)
            good.trace = good.trace + (("new", a[0], a[1], x),)
            bad.trace = bad.trace + (("new", a[0], a[1], None),)
            return [(good, models.ok(x)), (bad, models.err(Opaque("FileIOError")))]

        def all_ens(c):
            T = {t[0]: t for t in c.st.trace}
            sc, new = T.get("scaling"), T.get("new")
            r = c.ret
            if sc is None:
                return [("the scaling of weights is found from all files", z3.BoolVal(False))]
            out = [("the scaling of weights is found from all files", eqv(sc[1], c.a[1]))]
            if sc[2] is None or new is None:
                return out + [("or else an error is reported", z3.And(zi(r.d) == 1, z3.BoolVal(sc[2] is None)))]
            _, b, v, x = new
            return out + [("the event files are read", eqv(v, sc[2])), ("with this scaling", eqv(b.f[IB.index("scaling")], sc[3]))] + \
                [same("%s is kept" % n, b.f[IB.index(n)], c.a[0].f[IB.index(n)]) for n in IB if n != "scaling"] + \
                [("the reader or the error is returned", z3.And(zi(r.d) == 0, r.pay[0].f[0] == x) if x is not None else zi(r.d) == 1)]
        con = add("io::IOBuilder::build_from_files_iter", ("C12", "C14"), all_ens)
        con.without = ("stripper_xml::extract_scaling", "io::IOBuilder::build_from_files_iter_known_scaling")
        con.tyover.update({"I": ("z", I), "io::CombinedFileIO": ("z", I), "compression::Compression": ("z", I)})
        con.models = {"stripper_xml::extract_scaling": m_extract, "io::IOBuilder::build_from_files_iter_known_scaling": m_known}

    # ------------------------------------------------------------ c_api/cres.rs
    if "c_api::cres::cres_run_with" not in crate.bypath:
        return cs
    K = ("C17",)
    CJ, JD = names("c_api::cres::JetDefinition"), names("cluster::JetDefinition")
    ALG = [[v["n"] for v in crate.adts[p]["variants"]] for p in ("c_api::cres::JetAlgorithm", "cluster::JetAlgorithm")]

    def same_alg(a, b):
        return z3.And([z3.Implies(zi(a.d) == i, zi(b.d) == ALG[1].index(n)) for i, n in enumerate(ALG[0])])
    con = add("c_api::cres::<impl std::convert::From<c_api::cres::JetAlgorithm> for cluster::JetAlgorithm>::from", K, lambda c: [("the algorithm of that name", same_alg(c.a[0], c.ret))])

    def same_jets(a, b):
        return z3.And(same_alg(a.f[CJ.index("algorithm")], b.f[JD.index("algorithm")]), *[eqv(a.f[CJ.index(n)], b.f[JD.index(n)]) for n in ("radius", "min_pt")])
    con = add("c_api::cres::<impl std::convert::From<c_api::cres::JetDefinition> for cluster::JetDefinition>::from", K, lambda c: [("the same jets", same_jets(c.a[0], c.ret))])
    con.tyover.pop("cluster::JetDefinition")

    O_ = names("c_api::cres::Opt")
    o = lambda c, n: c.old(0).f[O_.index(n)]

    def recorded(tag):
        def m(eng, st, a, info):
            res = []
            for good in (True, False):
                s = st.copy()
                s.trace = s.trace + ((tag, a, info.targs, good),)
                res.append((s, models.ok(Agg("tuple", [])) if good else models.err(Opaque("Error"))))
            return res
        return m

    def outcome(c, t):
        return ("success exactly if the run succeeds", zi(c.ret.d) == (0 if t[3] else 1))

    SEARCH = [v["n"] for v in crate.adts["c_api::cres::Search"]["variants"]]

    def dist_ens(c):
        t = [t for t in c.st.trace if t[0] == "run"]
        if len(t) != 1:
            return [("one run", z3.BoolVal(False))]
        t = t[0]
        kind = {"neighbour_search::TreeSearch": "Tree", "neighbour_search::NaiveNeighbourSearch": "Naive"}.get(t[2][1].get("p"))
        return [("the search asked for", zi(o(c, "neighbour_search").d) == SEARCH.index(kind) if kind else z3.BoolVal(False)), ("these options", same_opt(models.ld(c.eng, c.st, t[1][0]), c.old(0))), ("this distance", eqv(t[1][1], c.a[1])), outcome(c, t)]
    NULL = z3.Bool("no_distance_given")

    def opt_setup(eng, st, b):
        v = {"neighbour_search": EnumV("c_api::cres::Search", fresh("search", I), {i: Agg("c_api::cres::Search", []) for i in range(len(SEARCH))}),
             "jet_def": fresh_of(eng.shape({"k": "adt", "p": "c_api::cres::JetDefinition", "a": []}), "jet_def"),
             "ptweight": fresh("ptweight", R), "max_cell_size": fresh("max_cell_size", R), "n_infiles": fresh("n_infiles", I), "distance": Ptr("custom")}
        st.store["custom"] = fresh("custom_distance", I)
        d = v["neighbour_search"].d
        alg = v["jet_def"].f[CJ.index("algorithm")].d
        st.fact(0 <= d, d < len(SEARCH), 0 <= alg, alg < len(ALG[0]))
        o = Agg("c_api::cres::Opt", [v.get(n, None) if n in v else fresh(n, I) for n in O_])
        return [o] + [fresh("dist", I)] * (b["body"]["argc"] - 1)

    def same_opt(a, b):
        return z3.And([z3.BoolVal(x.root == y.root) if isinstance(x, Ptr) else eqv(x, y) for x, y in zip(a.f, b.f)])
    con = add("c_api::cres::cres_run_with_dist", K, dist_ens, setup=opt_setup)
    con.models = {"c_api::cres::cres_run_with": recorded("run")}

    def int_ens(c):
        t = [t for t in c.st.trace if t[0] == "run"]
        if len(t) != 1:
            return [("one run", z3.BoolVal(False))]
        t = t[0]
        d = t[1][1]
        own = isinstance(d, Agg) and d.ty == "distance::EuclWithScaledPt"
        return [("the built-in distance exactly if no other is given", NULL if own else z3.Not(NULL)),
                ("with the transverse-momentum weight" if own else "the distance given", num(d.f[0]) == num(o(c, "ptweight")) if own else eqv(d, c.st.store["custom"])),
                ("these options", same_opt(models.ld(c.eng, c.st, t[1][0]), c.old(0))), outcome(c, t)]
    num = lambda x: num(x.f[0]) if isinstance(x, Agg) else x
    con = add("c_api::cres::cres_run_internal", K, int_ens, setup=opt_setup)
    op = lambda n: lambda eng, st, a, info: [(st, Opaque(n))]
    con.models = {"c_api::cres::cres_run_with_dist": recorded("run"), "std::ptr::mut_ptr::<impl *mut T>::is_null": lambda eng, st, a, info: [(st, NULL)],
                  "core::fmt::rt::Argument::<'_>::new_debug": op("Argument"), "std::fmt::Arguments::<'a>::new": op("Arguments"), "std::fmt::Arguments::<'a>::from_str": op("Arguments")}
    con.without = ("c_api::cres::cres_run_with_dist",)

    # the whole run: names are numbers here, paths are pairs of names
    NAME, JOIN, BASE = z3.Function("text_at", I, I), z3.Function("joined", I, I, I), z3.Function("file_name", I, I)

    def m_slice(eng, st, a, info):
        return [(st, SeqV(("z", I), [z3.Array("input_names", I, I)], 0, a[1]))]

    def m_name(eng, st, a, info):
        return [(st, NAME(zi(models.ld(eng, st, a[0]))))]

    def m_base(eng, st, a, info):
        # (every input has a file name)
        return [(st, EnumV(OPT, 1, {1: Agg(OPT, [BASE(zi(models.ld(eng, st, a[0])))])}))]

    def m_join(eng, st, a, info):
        v = a[0]
        xs = v.f if isinstance(v, Agg) else [sel(v, i) for i in range(2)]
        return [(st, JOIN(zi(models.ld(eng, st, xs[0])), zi(models.ld(eng, st, xs[1]))))] if len(xs) == 2 else NotImplemented

    def m_mkdir(eng, st, a, info):
        good, bad = st.copy(), st.copy()
        for s, g in ((good, True), (bad, False)):
            s.trace = s.trace + (("mkdir", models.ld(eng, st, a[0]), g),)
        return [(good, models.ok(Agg("tuple", []))), (bad, models.err(Opaque("Error")))]

    def m_build(eng, st, a, info):
        res = []
        v = models.collect_seq(eng, st, a[1])
        for s in (st,):
            good, bad = s.copy(), s.copy()
            io = fresh("event_io", I)
            for x, g in ((good, io), (bad, None)):
                x.trace = x.trace + (("io", a[0], v, g),)
            res += [(good, models.ok(io)), (bad, models.err(Opaque("Error")))]
        return res

    def m_run(eng, st, a, info):
        return recorded("run")(eng, st, [models.ld(eng, st, a[0])], info)

    def with_ens(c):
        o_ = c.old(0)
        g = lambda n: o_.f[O_.index(n)]
        T = {t[0]: t for t in c.st.trace}
        md, io, run = (T.get(x) for x in ("mkdir", "io", "run"))
        outdir = NAME(zi(g("outdir")))
        res = [("the output directory is made first", z3.BoolVal(md is not None) if md is None else zi(md[1]) == outdir)]
        if md is None or not md[2]:
            return res + [("or else an error is reported", zi(c.ret.d) == 1)]
        _, b, v, x = io
        k = fresh("k", I)
        f = NAME(z3.Select(z3.Array("input_names", I, I), k))
        e = sel(v, k)
        ib = dict(zip(IB, b.f))
        res += [("every input file is read", zi(v.n) == zi(g("n_infiles"))), ("in the order given", FA([k], z3.Implies(z3.And(0 <= k, k < zi(v.n)), zi(e.f[0]) == f), [f])),
                ("the output has the same name, in the output directory", FA([k], z3.Implies(z3.And(0 <= k, k < zi(v.n)), zi(e.f[1]) == JOIN(outdir, BASE(f))), [f])),
                ("no further settings", z3.And(zi(ib["compression"].d) == 0, zi(ib["weight_names"].n) == 0))]
        if x is None or run is None:
            return res + [("or else an error is reported", z3.And(zi(c.ret.d) == 1, x is None))]
        cr = run[1][0]
        p = lambda n: cr.f[C_.index(n)]
        rs = p("resampler")
        R_ = names("resampler::Resampler")
        size = rs.f[R_.index("max_cell_size")]
        ln = p("clustering")
        return res + [("these files are processed", zi(p("event_io")) == x), ("with the jets asked for", same_jets(g("jet_def"), ln.f[D.index("jet_def")])),
                      ("and nothing else", z3.And(none(ln.f[D.index("lepton_def")]), none(ln.f[D.index("photon_def")]), z3.Not(zb(ln.f[D.index("include_neutrinos")])))),
                      ("with the distance given", eqv(rs.f[R_.index("distance")], c.a[1])), ("with the cell size asked for", z3.And(zi(size.d) == 1, num(size.pay[1].f[0]) == num(g("max_cell_size"))) if size.pay.get(1) is not None else z3.BoolVal(False)),
                      ("success exactly if the run succeeds", zi(c.ret.d) == (0 if run[3] else 1))]
    con = add("c_api::cres::cres_run_with", K, with_ens, setup=opt_setup, requires=lambda c: [("a list", zi(o(c, "n_infiles")) >= 0)])
    con.tyover.pop("cluster::JetDefinition")
    con.tyover.update({"std::ffi::CStr": ("z", I), "std::ffi::OsStr": ("z", I), "io::CombinedFileIO": ("z", I), "compression::Compression": ("z", I)})
    con.models = {"std::slice::from_raw_parts": m_slice, "std::ffi::CStr::from_ptr": m_name, "core::ffi::CStr::from_ptr": m_name, "core::ffi::c_str::CStr::from_ptr": m_name,
                  "std::ffi::CStr::to_bytes": m_same, "std::os::unix::ffi::OsStrExt::from_bytes": m_same, "std::path::Path::file_name": m_base, "std::path::Path::as_os_str": m_same, "<std::path::PathBuf as std::convert::From<&T>>::from": m_same, "<std::path::PathBuf as std::ops::Deref>::deref": m_same, "<std::path::PathBuf as std::iter::FromIterator<P>>::from_iter": m_join, "std::fs::create_dir_all": m_mkdir,
                  "io::IOBuilder::build_from_files_iter": m_build, "cres::Cres::<R, C, Cl, S, U>::run": m_run}
    con.without = ("cres::Cres::<R, C, Cl, S, U>::run",)
    for n in ("core::fmt::rt::Argument::<'_>::new_debug", "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str"):
        con.models[n] = op("Argument")
    return cs
