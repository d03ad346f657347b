"""io.rs: several files behave like one stream and stay matched to their outputs."""
from contracts.common import *

C = "io::CombinedFileIO"
NEW, REWIND = C + "::new", "<%s as traits::Rewind>::rewind" % C
NEXT, HINT = "<%s as std::iter::Iterator>::next" % C, "<%s as std::iter::Iterator>::size_hint" % C
UPD = "<%s as traits::UpdateWeights>::" % C
ALL, ONE, FIN = UPD + "update_all_weights", UPD + "update_next_weights", UPD + "finish_weight_update"
RES, OPT, FIO = "std::result::Result", "std::option::Option", "io::FileIO"
WORLD = ("W",)
# input files by name: how many records they have, and the records
NREC = z3.Function("records_in_file", I, I)
REC = z3.Function("record_of_file", I, I, I)
START = z3.Function("records_before_file", I, I)    # of the files of this object
WS = z3.Function("kth_weights", I, I)               # weights given so far
FILE = z3.Function("index_of_output", I, I)
AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)
HMAX = 2 ** 31


def lemma_start(f, n):
    """starts are ordered"""
    i, j = fresh("i", I), fresh("j", I)
    return FA([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= zi(n)), START(i) <= START(j)), [START(i), START(j)])


def prove_start():
    j, n, i, k = z3.Int("j"), z3.Int("n"), fresh("i", I), fresh("k", I)
    step = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), START(k + 1) >= START(k)))
    hyp = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= j), START(i) <= START(j)), patterns=[START(i)])
    goal = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= j + 1), START(i) <= START(j + 1)), patterns=[START(i)])
    return [("starts are ordered, step", [hyp, step, 0 <= j, j < n], goal)]


def contracts(crate, multi):
    CF = [f["n"] for f in crate.adts[C]["variants"][0]["f"]]
    FL, CUR, IDX, NREAD, HINTS = (CF.index(n) for n in ("files", "current", "current_file_idx", "nevents_read", "total_size_hint"))
    PF = [f["n"] for f in crate.adts["io::IOFiles"]["variants"][0]["f"]]
    PIN, POUT = PF.index("infile"), PF.index("outfile")

    # ------------------------------------------------------------ state of the object
    class S:
        def __init__(self, me):
            self.files, self.cur, self.idx, self.nread, self.hints = me.f[FL], me.f[CUR], zi(me.f[IDX]), zi(me.f[NREAD]), me.f[HINTS]
            if not is0(self.files.off):
                raise Unsupported("files with an offset")
            self.n = zi(self.files.n)
            self.open = zi(self.cur.d) == 1
            p = self.cur.pay.get(1)
            self.file = p.f[0].f[0] if p is not None else Agg("file", [z3.IntVal(0)] * 3)
            self.pos = zi(self.file.f[2])
            # position in the stream
            self.f = z3.If(self.open, self.idx, z3.IntVal(0))
            self.p = z3.If(self.open, self.pos, z3.IntVal(0))
            self.at = START(self.f) + self.p

        def infile(self, i):
            return zi(sel(self.files, i).f[PIN])

        def outfile(self, i):
            return zi(sel(self.files, i).f[POUT])

        def size(self, i):
            return NREC(self.infile(i))

        def wf(self):
            return z3.And(z3.Or(zi(self.cur.d) == 0, zi(self.cur.d) == 1),
                          z3.Implies(self.open, z3.And(0 <= self.idx, self.idx < self.n, zi(self.file.f[0]) == self.infile(self.idx), zi(self.file.f[1]) == self.outfile(self.idx),
                                                       0 <= self.pos, self.pos <= self.size(self.idx))))

    def setting(s):
        """ghosts: how many records come before each file; different files are written to different places"""
        tok = fresh("name", I)
        return [("no negative number of records", z3.ForAll([tok], NREC(tok) >= 0, patterns=[NREC(tok)])),
                ("records before each file", z3.And(START(0) == 0, START(s.n) < 2 ** 60, forall(s.n, lambda k: START(k + 1) == START(k) + s.size(k), s.size), s.n < HMAX)),
                ("the output files are different", forall(s.n, lambda k: FILE(s.outfile(k)) == k, s.outfile))]

    # ------------------------------------------------------------ the outside world: one file
    def pre(eng, st):
        # per output file: number of records written, whether each is the record of the input at the
        # same position with the weights for it, whether the file is complete; and the last thing written
        st.store[WORLD] = Agg("world", [z3.Const("written", AI), z3.Const("matched", AB), z3.Const("complete", AB), z3.Int("last_output"), z3.Int("last_record"), z3.Int("last_weights")])

    def world(st):
        return st.store[WORLD].f

    def setworld(eng, st, f):
        eng.assign(st, Ptr(WORLD), Agg("world", f))

    def failed(eng, st, a=None):
        s = st.copy()
        s.trace = s.trace + (("failed",),)
        if a is not None:
            f = models.ld(eng, s, a)
            p = fresh("pos", I)
            s.fact(p >= 0, p <= NREC(zi(f.f[0])))
            eng.assign(s, a, Agg("file", [f.f[0], f.f[1], p]))
        eng.assign(s, Ptr(WORLD), eng.havoc(s.store[WORLD], None, None, s, "world"))
        return s

    def m_build(eng, st, a, info):
        i, o = zi(models.ld(eng, st, a[1])), zi(models.ld(eng, st, a[2]))
        bad = failed(eng, st)
        c, m, d, lo, lr, lw = world(st)
        setworld(eng, st, [z3.Store(c, o, 0), z3.Store(m, o, True), z3.Store(d, o, False), lo, lr, lw])
        return [(st, models.ok(Agg(FIO, [Agg("file", [i, o, 0])]))), (bad, models.err(Opaque("CreateError")))]

    def file_of(eng, st, v):
        f = models.ld(eng, st, v)
        return f if isinstance(f, Agg) and f.ty == "file" else None

    def m_next(eng, st, a, info):
        f = file_of(eng, st, a[0])
        if f is None:
            return NotImplemented
        bad = failed(eng, st, a[0])
        p = zi(f.f[2])
        n = NREC(zi(f.f[0]))
        out = [(bad, EnumV(OPT, 1, {1: Agg(OPT, [models.err(Opaque("FileIOError"))])}))]
        for s, b in models.fork(eng, st, p < n):
            if b:
                eng.assign(s, a[0], Agg("file", [f.f[0], f.f[1], p + 1]))
                out.append((s, EnumV(OPT, 1, {1: Agg(OPT, [models.ok(REC(zi(f.f[0]), p))])})))
            else:
                out.append((s, EnumV(OPT, 0, {0: Agg(OPT, [])})))
        return out

    def m_hint(eng, st, a, info):
        f = file_of(eng, st, a[0])
        if f is None:
            return NotImplemented
        left = NREC(zi(f.f[0])) - zi(f.f[2])
        lo, hi, d = fresh("lo", I), fresh("hi", I), fresh("has", I)
        st.fact(0 <= lo, lo <= left, left <= hi, hi < HMAX, z3.Or(d == 0, d == 1))
        return [(st, Agg("tuple", [lo, EnumV(OPT, d, {0: Agg(OPT, []), 1: Agg(OPT, [hi])})]))]

    def m_update(eng, st, a, info):
        f = file_of(eng, st, a[0])
        if f is None:
            return NotImplemented
        x = zi(models.ld(eng, st, a[1]))
        i, o, p = (zi(v) for v in f.f)
        c, m, d, lo, lr, lw = world(st)
        eng.oblige(st, z3.Not(z3.Select(d, o)), "nothing is written to a file after its end", "precondition")
        out = [(failed(eng, st, a[0]), models.err(Opaque("FileIOError")))]
        for s, b in models.fork(eng, st, p < NREC(i)):
            if b:
                k = z3.Select(c, o)
                match = z3.And(z3.Select(m, o), p == k, x == WS(START(FILE(o)) + k))
                setworld(eng, s, [z3.Store(c, o, k + 1), z3.Store(m, o, match), d, o, REC(i, p), x])
                eng.assign(s, a[0], Agg("file", [f.f[0], f.f[1], p + 1]))
            out.append((s, models.ok(b)))
        return out

    def m_finish(eng, st, a, info):
        f = file_of(eng, st, a[0])
        if f is None:
            return NotImplemented
        c, m, d, lo, lr, lw = world(st)
        o = zi(f.f[1])
        eng.oblige(st, z3.Not(z3.Select(d, o)), "a file is completed once", "precondition")
        bad = failed(eng, st, a[0])
        setworld(eng, st, [c, m, z3.Store(d, o, True), lo, lr, lw])
        return [(st, models.ok(UNIT)), (bad, models.err(Opaque("FileIOError")))]

    mods = {"io::IOBuilder::build_from_files": m_build, "std::iter::Iterator::size_hint": m_hint}
    for n, f in (("update_next_weights", m_update), ("finish_weight_update", m_finish)):
        mods["traits::UpdateWeights::" + n] = f
    mods["std::boxed::iter::<impl std::iter::Iterator for std::boxed::Box<I, A>>::next"] = m_next
    mods["std::boxed::iter::<impl std::iter::Iterator for std::boxed::Box<I, A>>::size_hint"] = m_hint

    # ------------------------------------------------------------ what is written
    def written(s, st):
        """the outputs before the current file are complete, the current one is written up to the current
        position; every record written is the one at its position in the stream, with the weights of that position"""
        c, m, d = world(st)[:3]
        i = fresh("i", I)
        o = s.outfile(i)
        return FA([i], z3.Implies(z3.And(0 <= i, i <= s.f, i < s.n), z3.And(z3.Select(c, o) == z3.If(i < s.f, s.size(i), s.p), z3.Select(m, o), z3.Implies(i < s.f, z3.Select(d, o)))), [o])

    def notdone(s, st):
        return z3.Implies(s.open, z3.Not(z3.Select(world(st)[2], s.outfile(s.idx))))

    def fails(c):
        return any(t[0] == "failed" for t in c.st.trace)

    def st0(c):
        return S(c.old(0))

    def st1(c):
        return S(c.new(0))

    def req(c):
        s = st0(c)
        return setting(s) + [("state of the object", s.wf())]

    def facts(c):
        s = st0(c)
        return [lemma_start(None, s.n)]

    def mk(path, **kw):
        con = Contract(path, props=("C12",), pre=pre, **kw)
        con.models = mods
        con.tyover = {FIO: ("agg", FIO, [("agg", "file", [("z", I)] * 3)]), "std::path::PathBuf": ("z", I), "io::IOBuilder": ("z", I), "event::Weights": ("z", I), "io::EventRecord": ("z", I)}
        con.facts = facts
        return con

    same_files = []

    # ------------------------------------------------------------ reading
    def next_ens(c):
        a, b = st0(c), st1(c)
        r = c.ret
        out = [("the object stays well formed", b.wf())]
        if fails(c):
            return out + [("a failure is reported", z3.And(zi(r.d) == 1, zi(r.pay[1].f[0].d) == 1) if 1 in r.pay else z3.BoolVal(False))]
        ended = z3.And(a.at == START(a.n), b.at == a.at, b.nread == a.nread)
        if isinstance(r.d, int) and r.d == 0:
            return out + [("the stream ends after the last record of the last file", ended)]
        x = r.pay[1].f[0]
        if not isinstance(x.d, int) or x.d != 0:
            return out + [("no error without a failure", z3.BoolVal(False))]
        return out + [("the next record of the stream is read", z3.And(b.open, b.at == a.at + 1, b.p >= 1, x.pay[0].f[0] == REC(b.infile(b.f), b.p - 1))),
                      ("it is counted", b.nread == a.nread + 1)]

    def next_ret(c):
        s1, s2, s3 = c.st, c.st.copy(), c.st.copy()
        s3.trace = s3.trace + (("failed",),)
        x = fresh("record", I)
        return [(s1, EnumV(OPT, 0, {0: Agg(OPT, [])})), (s2, EnumV(OPT, 1, {1: Agg(OPT, [models.ok(x)])})),
                (s3, EnumV(OPT, 1, {1: Agg(OPT, [models.err(Opaque("FileIOError"))])}))]

    fields = [(("f", CUR),), (("f", IDX),), (("f", NREAD),)]
    nxt = mk(NEXT, requires=lambda c: req(c) + [("few records read", st0(c).nread < 2 ** 62)], ensures=next_ens, returns=next_ret, modifies={0: fields, WORLD: True},
             decreases=lambda c: z3.If(st0(c).open, st0(c).n - st0(c).idx, st0(c).n + 1))

    rew = mk(REWIND, requires=req, ensures=lambda c: [("back at the start", z3.And(z3.Not(st1(c).open), st1(c).nread == 0)), ("no error", zi(c.ret.d) == 0)], modifies={0: fields})

    def bounds(h, left):
        lo, hi = h.f
        return z3.And(zi(lo) <= left, z3.Implies(zi(hi.d) == 1, left <= zi(hi.pay[1].f[0]) if 1 in hi.pay else z3.BoolVal(False)), z3.Or(zi(hi.d) == 0, zi(hi.d) == 1))

    hint = mk(HINT, requires=lambda c: req(c) + [("the object's hints bound the total", bounds(st0(c).hints, START(st0(c).n))), ("records read", st0(c).nread == st0(c).at)],
              ensures=lambda c: [("bounds on the number of records left", bounds(c.ret, START(st0(c).n) - st0(c).at))])

    def init_inv(L):
        s = S(L.eng.load(L.st, L.arg(0)))
        k = zi(L.it().pos)
        h = s.hints
        hi = h.f[1]
        return [("the object is well formed", s.wf()),
                ("bounds on the records of the files so far", z3.And(bounds(h, START(k)), zi(h.f[0]) >= 0, z3.Implies(zi(hi.d) == 1, z3.And(0 <= zi(hi.pay[1].f[0]), zi(hi.pay[1].f[0]) <= k * HMAX)) if 1 in hi.pay else z3.BoolVal(True))),
                ("nothing read", s.nread == 0), ("a file is open", z3.Implies(k >= 1, s.open))]

    def new_state(c):
        v = c.a[0]
        fake = Agg("fake", [None] * len(CF))
        f = list(fake.f)
        f[FL], f[CUR], f[IDX], f[NREAD], f[HINTS] = v, EnumV(OPT, 0, {0: Agg(OPT, [])}), 0, 0, Agg("tuple", [0, EnumV(OPT, 1, {1: Agg(OPT, [0])})])
        return S(Agg("fake", f))

    def new_ens(c):
        r = c.ret
        if fails(c):
            return [("a failure is reported", zi(r.d) == 1)]
        if not isinstance(r.d, int) or r.d != 0:
            return [("no error without a failure", z3.BoolVal(False))]
        a, b = new_state(c), S(r.pay[0].f[0])
        return [("well formed", b.wf()), ("nothing is read yet", z3.And(b.at == 0, b.nread == 0)), ("the hints bound the total", bounds(b.hints, START(a.n))),
                ("the files are those given", z3.And(b.n == a.n, forall(a.n, lambda i: z3.And(a.infile(i) == b.infile(i), a.outfile(i) == b.outfile(i)), lambda i: [a.infile(i), a.outfile(i)]))),
                ("the first file is open for writing", z3.Implies(a.n > 0, z3.And(b.open, b.idx == 0, z3.Select(world(c.st)[0], b.outfile(0)) == 0, notdone(b, c.st))))]

    new = mk(NEW, requires=lambda c: setting(new_state(c)), ensures=new_ens)
    new.facts = lambda c: [lemma_start(None, new_state(c).n)]
    LOOPS[(C + "::init", 0)] = LoopSpec(init_inv)

    # ------------------------------------------------------------ updating
    def all_inv(L):
        """before file it.pos"""
        s = S(L.eng.load(L.st, L.arg(0)))
        k, ne = zi(L.it().pos), zi(L.v("nevent"))
        total = zi(L.arg(1).n)
        upto = z3.If(START(k) < total, START(k), total)
        return [("well formed", s.wf()), ("number of records updated", z3.And(ne == upto, s.nread == ne)), ("at the end of the files so far, unless weights ran out", z3.Implies(z3.And(k >= 1, START(k) <= total), z3.And(s.open, s.at == START(k))))] + \
            allwritten(s, L.st, ne, k)

    def allwritten(s, st, ne, nf, last=None):
        """the first nf files have been written, with ne weights in total; all complete (but `last`)"""
        c, m, d = world(st)[:3]
        i = fresh("i", I)
        o = s.outfile(i)
        left = ne - START(i)
        cnt = z3.If(left < 0, z3.IntVal(0), z3.If(left < s.size(i), left, s.size(i)))
        rng = z3.And(0 <= i, i < nf)
        return [("as many records in each output as there are weights for its input", FA([i], z3.Implies(rng, z3.Select(c, o) == cnt), [o])),
                ("the k-th weight goes to the k-th record", FA([i], z3.Implies(rng, z3.Select(m, o)), [o])),
                ("every output file is completed", FA([i], z3.Implies(rng if last is None else z3.And(rng, i != last), z3.Select(d, o)), [o]))]

    def all_inner(L):
        s = S(L.eng.load(L.st, L.arg(0)))
        w = L.arg(1)
        idx, ne = zi(L.v("idx")), zi(L.v("nevent"))
        cur = L.v("current")
        total = zi(w.n)
        base = z3.If(START(idx) < total, START(idx), total)
        its = L.its()
        # weights may be gone through by an iterator of their own
        lock = [("weights are taken in turn", ne - zi(its[-1][1].pos) == zi(L.v0("nevent")))] if len(its) > 1 else []
        return lock + [("well formed", z3.And(s.wf(), s.open, s.idx == idx, 0 <= idx, idx < s.n, notdone(s, L.st))),
                ("number of records updated", z3.And(ne == base + s.pos, ne <= total, s.nread == ne)), ("records of this file only if weights are left", z3.Implies(START(idx) > total, s.pos == 0))] + \
            allwritten(s, L.st, ne, idx + 1, last=idx)

    def all_ens(c):
        a, b = st0(c), st1(c)
        w = c.a[1]
        r = c.ret
        if fails(c):
            return [("a failure is reported", zi(r.d) == 1), ("well formed", b.wf())]
        if not isinstance(r.d, int) or r.d != 0:
            return [("no error without a failure", z3.BoolVal(False))]
        n = zi(r.pay[0].f[0])
        total = START(a.n)
        return [("well formed", b.wf()), ("the number of records updated is returned", n == z3.If(total < zi(w.n), total, zi(w.n)))] + allwritten(a, c.st, n, a.n) + \
            [("all records count as read if there were enough weights", z3.Implies(n == total, z3.And(b.nread == n, b.at == n)))]

    al = mk(ALL, requires=lambda c: req(c) + [("the k-th weights", forall(c.a[1].n, lambda k: WS(k) == zi(sel(c.a[1], k)), lambda k: [WS(k), zi(sel(c.a[1], k))]))], ensures=all_ens, modifies={0: fields, WORLD: True}, loops={0: LoopSpec(all_inv), 1: LoopSpec(all_inner)})

    # which file is open changes in the loop
    def one_inv(L):
        a = S(L.eng.load(L.entry, L.arg(0)))
        s = S(L.eng.load(L.st, L.arg(0)))
        return [("well formed and open", z3.And(s.wf(), s.open, notdone(s, L.st))), ("nothing is skipped", z3.And(s.at == a.at, s.idx >= a.idx, s.nread == a.nread)),
                ("what was written stays", z3.Implies(written(a, L.entry), written(s, L.st))),
                ("other outputs stay as they are", others(a, L.entry, s, L.st))]

    def others(a, sa, b, sb):
        """outputs of other files are untouched"""
        i = fresh("i", I)
        o = a.outfile(i)
        same = z3.And([z3.Select(x, o) == z3.Select(y, o) for x, y in zip(world(sa)[:3], world(sb)[:3])])
        return FA([i], z3.Implies(z3.And(0 <= i, i < a.n, z3.Or(i < a.f, i > b.f)), same), [o])

    def one_req(c):
        s = st0(c)
        return req(c) + [("the open file is not complete", notdone(s, c.pre_st)), ("few records read", s.nread < 2 ** 62)]

    def pre_written(c, s):
        """as `written`, for an object that may have to be opened first"""
        return z3.Implies(s.open, written(s, c.pre_st))

    def one_ens(c):
        a, b = st0(c), st1(c)
        r = c.ret
        if fails(c):
            return [("a failure is reported", zi(r.d) == 1), ("well formed", b.wf())]
        if not isinstance(r.d, int) or r.d != 0:
            return [("no error without a failure", z3.BoolVal(False))]
        w = zi(c.a[1])
        more = zb(r.pay[0].f[0])
        lo, lr, lw = world(c.st)[3:]
        return [("well formed", b.wf()),
                ("the next record of the stream is written with these weights to the output of its file", z3.Implies(more, z3.And(b.open, b.at == a.at + 1, b.p >= 1, lo == b.outfile(b.f), lr == REC(b.infile(b.f), b.p - 1), lw == w, b.nread == a.nread + 1))),
                ("no further record only at the end of the stream", z3.Implies(z3.Not(more), z3.And(a.at == START(a.n), b.at == a.at, b.nread == a.nread))),
                ("updated from the start, the k-th weight goes to the k-th record and every output is completed before the next", z3.Implies(z3.And(pre_written(c, a), z3.Implies(more, w == WS(a.at)), a.n > 0), written(b, c.st))),
                ("the open file is not complete", notdone(b, c.st)),
                ("other outputs stay as they are", others(a, c.pre_st, b, c.st))]

    one = mk(ONE, requires=one_req, ensures=one_ens, modifies={0: fields, WORLD: True}, loops={0: LoopSpec(one_inv)})

    # ------------------------------------------------------------ the end of an update
    def fin_inv(L):
        a = S(L.eng.load(L.entry, L.arg(0)))
        s = S(L.eng.load(L.st, L.arg(0)))
        i = fresh("i", I)
        o = a.outfile(i)
        k = zi(L.it().pos) + a.idx      # files up to k are complete
        return [("well formed", z3.And(s.wf(), s.open, s.n == a.n)),
                ("what was written stays", z3.And([FA([i], z3.Implies(z3.And(0 <= i, i <= a.idx), z3.Select(x, o) == z3.Select(y, o)), [o]) for x, y in zip(world(L.st)[:3], world(L.entry)[:3])])),
                ("later files are completed, with no records", FA([i], z3.Implies(z3.And(a.idx < i, i <= k), z3.And(z3.Select(world(L.st)[2], o), z3.Select(world(L.st)[0], o) == 0)), [o]))]

    def fin_ens(c):
        a, b = st0(c), st1(c)
        r = c.ret
        if fails(c):
            return [("a failure is reported", zi(r.d) == 1)]
        i = fresh("i", I)
        o = a.outfile(i)
        w0, w1 = world(c.pre_st), world(c.st)
        return [("no error without a failure", zi(r.d) == 0),
                ("every output file from here on is completed", FA([i], z3.Implies(z3.And(a.f <= i, i < a.n), z3.Select(w1[2], o)), [o])),
                ("what was written stays", z3.Implies(a.open, z3.And([FA([i], z3.Implies(z3.And(0 <= i, i <= a.f, i < a.n), z3.Select(x, o) == z3.Select(y, o)), [o]) for x, y in zip(w0[:2], w1[:2])]))),
                ("complete files stay complete", FA([i], z3.Implies(z3.And(0 <= i, i < a.f, i < a.n), z3.Select(w1[2], o) == z3.Select(w0[2], o)), [o])),
                ("later files have no records", FA([i], z3.Implies(z3.And(a.f < i, i < a.n), z3.Select(w1[0], o) == 0), [o]))]

    fin = mk(FIN, requires=lambda c: req(c) + [("the open file is not complete", notdone(st0(c), c.pre_st))], ensures=fin_ens, modifies={0: fields, WORLD: True}, loops={0: LoopSpec(fin_inv)})
    return [nxt, rew, hint, new, al, one, fin]


LOOPS = {}
