"""Path-wise symbolic execution of exported MIR against contracts.

Every obligation is recorded as (facts, goal); nothing is decided here apart from pruning of
infeasible branches.  See DESIGN.md for the semantics used.
"""
import os
import re
import z3
from values import *
import values as V

USIZE_MAX = 2 ** 64 - 1
INT_RANGE = {}
for _b, _n_ in ((8, "8"), (16, "16"), (32, "32"), (64, "64"), (128, "128"), (64, "size")):
    INT_RANGE["u" + _n_] = (0, 2 ** _b - 1)
    INT_RANGE["i" + _n_] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)

BOXES = {"std::boxed::Box", "std::vec::Vec", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow"}
HEAP = ("H",)
HELD = ("HELD",)


class Frame:
    __slots__ = ("fid", "body", "key", "path", "subst", "loops", "file")

    def __init__(self, fid, body, key, path, subst, loops, file=None):
        self.fid, self.body, self.key, self.path, self.subst, self.loops = fid, body, key, path, subst, loops
        self.file = file


class State:
    __slots__ = ("store", "pc", "writes", "loops", "trace")

    def __init__(self):
        self.store, self.pc, self.writes, self.loops, self.trace = {}, [], frozenset(), (), ()

    def copy(self):
        s = State()
        s.store, s.pc, s.writes, s.loops, s.trace = dict(self.store), list(self.pc), self.writes, self.loops, self.trace
        return s

    def fact(self, *es):
        for e in es:
            if e is True or (isz(e) and z3.is_true(e)):
                continue
            self.pc.append(("f", zb(e)))

    def branch(self, e):
        if e is True or (isz(e) and z3.is_true(e)):
            return
        self.pc.append(("b", zb(e)))

    def facts(self):
        return [e for _, e in self.pc]


class Obligation:
    def __init__(self, fn, label, kind, line, facts, goal, extra=()):
        self.fn, self.label, self.kind, self.line = fn, label, kind, line
        self.facts, self.goal, self.extra = facts, goal, list(extra)
        self.result = None

    def name(self):
        return "%s: %s" % (self.fn, self.label)


def natural_loops(body):
    """header -> set of blocks, from dominators (normal edges only)"""
    bl = body["blocks"]
    succ = {}
    for i, b in enumerate(bl):
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            s = [t[2]]
        elif k == "call":
            s = [t[4]] if t[4] is not None else []
        elif k == "assert":
            s = [t[5]]
        else:
            s = []
        succ[i] = [x for x in s if x is not None]
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        n, it = stack[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                stack.append((m, iter(succ[m])))
                break
        else:
            order.append(n)
            stack.pop()
    rpo = order[::-1]
    num = {n: i for i, n in enumerate(rpo)}
    pred = {n: [] for n in rpo}
    for n in rpo:
        for m in succ[n]:
            pred[m].append(n)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in pred[n]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for m in succ[n]:
            if dom(m, n):
                s = loops.setdefault(m, {m})
                work = [n]
                while work:
                    x = work.pop()
                    if x not in s:
                        s.add(x)
                        work += pred[x]
    return loops, succ


def used_defd(body):
    """per block: locals read (or borrowed/written through) before being assigned, and locals assigned"""
    bl = body["blocks"]
    use, dfn = [], []
    for b in bl:
        u, d = set(), set()

        def rd(p):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e != "*" and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o):
            if "c" in o:
                rd(o["c"])
            elif "m" in o:
                rd(o["m"])

        def walk(x):
            if isinstance(x, dict):
                if "c" in x and isinstance(x["c"], list):
                    rd(x["c"])
                elif "m" in x and isinstance(x["m"], list):
                    rd(x["m"])
            elif isinstance(x, list):
                for y in x:
                    walk(y)

        def wr(p):
            if len(p) == 1:
                d.add(p[0])
            else:
                rd(p)
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("ref", "raw"):
                    rd(r[2])
                elif r[0] == "discr":
                    rd(r[1])
                elif r[0] == "agg":
                    walk(r[2])
                else:
                    walk(r[1:])
                    for x in r[1:]:
                        if isinstance(x, list) and x and isinstance(x[0], int) and r[0] in ("len", "cfd"):
                            rd(x)
                wr(s[1])
            elif s[0] == "dead":
                d.add(s[1])
        t = b["t"]
        if t[0] == "switch":
            op(t[1])
        elif t[0] == "call":
            for a in t[2]:
                op(a)
            if "dynop" in t[1]:
                op(t[1]["dynop"])
            wr(t[3])
        elif t[0] == "assert":
            op(t[1])
            walk(t[4])
        elif t[0] == "drop":
            rd(t[1])
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        use.append(u)
        dfn.append(d)
    return use, dfn


def liveness(body, succ):
    use, dfn = used_defd(body)
    n = len(body["blocks"])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            for s in succ.get(i, []):
                out |= live[s]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                ch = True
    return live


class Engine:
    def __init__(self, crate, config):
        self.crate, self.config = crate, config
        self.obls = []
        self.models = {}
        self.contracts = {}
        self.loopspecs = {}
        self.traitspecs = {}
        self.fid = 0
        self.depth = 0
        self.dry = 0
        self.fn = "?"
        self.stats = {"paths": 0, "inlined": set(), "models": set(), "contracts_used": set(), "feas": 0, "feas_s": 0.0, "unrolled": set(), "trait_assumed": set()}
        self.interference = False
        self.cache = {}
        self.line = 0
        self.curkey = None
        self.lemmas = []
        self.inline_only = set()
        self.tyover = {}
        self.rootty = {}
        self.nobl = 0
        self.unroll_max = 24
        self.known_defs = []
        self.covers = []
        self.foreach_specs = {}
        self.forward = False    # no facts that lead from an old state to a new one (they may loop)
        self.foreach_rule = None
        self.cur_contract = self.cur_ctx = self.cur_measure = None

    # ------------------------------------------------------------ types
    def norm(self, ty, subst):
        if ty["k"] == "param" and subst and ty["n"] in subst:
            return subst[ty["n"]]
        return ty

    def psort(self, name):
        if name == "P":
            return I    # points: see contracts/vptree.py
        return z3.DeclareSort("T_" + re.sub(r"\W", "_", name))

    def tyd(self, ty, subst=None):
        import mir
        return mir.tyname(ty)

    def is_real(self, ty):
        return ty["k"] == "float" or (ty["k"] == "adt" and ty["p"] == "noisy_float::NoisyFloat")

    def shape(self, ty, subst=None):
        """shape of the values of a type (for sequences and fresh values)"""
        ty = self.norm(ty, subst)
        k = ty["k"]
        import mir
        if self.is_real(ty):
            return ("z", R)
        if k in ("int", "char"):
            return ("z", I)
        if k == "bool":
            return ("z", B)
        if k == "ref":
            if ty.get("m"):
                raise Unsupported("shape of &mut")
            return self.shape(ty["t"], subst)
        if k in ("slice",):
            return ("seq", self.shape(ty["t"], subst))
        if k == "dyn" and "dyn" in self.tyover:
            return self.tyover["dyn"]
        if k == "str":
            return self.tyover.get("str", ("seq", ("z", I)))
        if k == "array":
            n = (ty.get("len") or {}).get("v")
            if isinstance(n, int) and n <= 16:
                return ("agg", "array", [self.shape(ty["t"], subst)] * n)
            return ("seq", self.shape(ty["t"], subst))
        if k == "tuple":
            return ("agg", "tuple", [self.shape(x, subst) for x in ty["a"]])
        if k == "ptr" and not ty.get("m") and not (ty["t"]["k"] == "adt" and ty["t"]["p"].endswith("c_void")):
            return ("agg", "rawptr", [("seq", self.shape(ty["t"], subst)), ("z", I)])
        if k == "param":
            if ty["n"] in self.tyover:
                return self.tyover[ty["n"]]
            return ("z", self.psort(ty["n"]))
        if k == "never":
            return ("agg", "never", [])
        if k == "adt":
            p = ty["p"]
            a = [self.norm(x, subst) for x in ty.get("a", [])]
            if p in self.tyover:
                return self.tyover[p]
            if p in ("std::vec::Vec", "std::collections::VecDeque"):
                return ("seq", self.shape(a[0], subst))
            if p == "std::string::String":
                return ("seq", ("z", I))
            if p in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow"):
                return self.shape(a[0], subst)
            if p.endswith("RwLock") and "lock" in p:
                return ("guard",)
            if p.endswith("RwLockWriteGuard"):
                return ("guard",)
            if p == "std::collections::HashSet":
                return ("set", self.shape(a[0], subst))
            if p == "std::collections::HashMap":
                return ("map", self.shape(a[0], subst), self.shape(a[1], subst), "hash")
            if p == "std::collections::BTreeMap":
                return ("map", self.shape(a[0], subst), self.shape(a[1], subst), "btree")
            if p == "std::marker::PhantomData":
                return ("agg", p, [])
            d = self.crate.adts.get(p)
            if d is None or not self.transparent(p, d):
                return ("opq", mir.tyname(ty))
            sub = dict(zip(d["gens"], a)) if d.get("gens") else {}
            if p in self.cache.setdefault("shaping", set()):
                raise Unsupported("recursive type " + p)
            self.cache["shaping"].add(p)
            try:
                if d["kind"] == "struct":
                    return ("agg", p, [self.shape(f["t"], sub) for f in d["variants"][0]["f"]])
                if d["kind"] == "enum":
                    return ("enum", p, {i: ("agg", p, [self.shape(f["t"], sub) for f in v["f"]]) for i, v in enumerate(d["variants"])})
            finally:
                self.cache["shaping"].discard(p)
        return ("opq", mir.tyname(ty))

    KNOWN_EXT = {"std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::ControlFlow",
                 "std::ops::Range", "particle_id::ParticleID", "std::ops::RangeInclusive"}

    def transparent(self, p, d):
        if p in self.KNOWN_EXT:
            return True
        # the library's types are transparent in the binaries as well
        return (bool(d.get("local")) or p.startswith("cres::")) and d["kind"] in ("struct", "enum")

    def tfacts(self, v, ty, subst, out, depth=0):
        """facts every value of a type satisfies"""
        ty = self.norm(ty, subst)
        k = ty["k"]
        if isz(v) and v.sort() == I:
            if k == "int" and ty.get("n") in INT_RANGE:
                lo, hi = INT_RANGE[ty["n"]]
                out.append(z3.And(v >= lo, v <= hi))
            elif k == "char":
                out.append(z3.And(v >= 0, v <= 0x10FFFF))
            elif k == "adt" and ty["p"] == "particle_id::ParticleID":
                out.append(z3.And(v >= -2 ** 31, v < 2 ** 31))
            return
        if k == "ref":
            return self.tfacts(v, ty["t"], subst, out, depth)
        if k == "ptr" and isinstance(v, Agg) and v.ty == "rawptr":
            # an arbitrary pointer points to the start of what it may access
            out.append(zi(v.f[1]) == 0)
            return self.tfacts(v.f[0], {"k": "slice", "t": ty["t"]}, subst, out, depth)
        if isinstance(v, SeqV):
            n = zi(v.n)
            out.append(z3.And(n >= 0, n <= 2 ** 63 - 1))
            et = None
            if k in ("slice", "array"):
                et = ty["t"]
            elif k == "adt" and ty.get("a"):
                et = ty["a"][0]
                et = self.norm(et, subst)
                if ty["p"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow"):
                    if et["k"] in ("slice",):
                        et = et["t"]
                    elif et["k"] == "str":
                        et = None
                    else:
                        return self.tfacts(v, et, subst, out, depth)
            if et is not None:
                i = fresh("i", I)
                e = decode(v.sh, [z3.Select(a, i) for a in v.lv])
                sub = []
                self.tfacts(e, et, subst, sub, depth + 1)
                if sub and v.lv:
                    out.append(z3.ForAll([i], z3.And(sub), patterns=[self.leafpat(v, i, sub)]))
            return
        if k == "adt" and ty["p"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow"):
            return self.tfacts(v, ty["a"][0], subst, out, depth)
        if isinstance(v, Agg):
            if k == "tuple":
                for x, t in zip(v.f, ty["a"]):
                    self.tfacts(x, t, subst, out, depth)
            elif k == "array":
                for x in v.f:
                    self.tfacts(x, ty["t"], subst, out, depth)
            elif k == "adt":
                d = self.crate.adts.get(ty["p"])
                if d and d["kind"] == "struct":
                    sub = dict(zip(d.get("gens") or [], [self.norm(x, subst) for x in ty.get("a", [])]))
                    for x, f in zip(v.f, d["variants"][0]["f"]):
                        self.tfacts(x, f["t"], sub, out, depth)
            return
        if isinstance(v, EnumV) and k == "adt":
            d = self.crate.adts.get(ty["p"])
            if d:
                if isz(v.d):
                    out.append(z3.And(v.d >= 0, v.d < len(d["variants"])))
                sub = dict(zip(d.get("gens") or [], [self.norm(x, subst) for x in ty.get("a", [])]))
                for vi, p in v.pay.items():
                    if p is not None:
                        o = []
                        for x, f in zip(p.f, d["variants"][vi]["f"]):
                            self.tfacts(x, f["t"], sub, o, depth)
                        if o:
                            out.append(z3.Implies(zi(v.d) == vi, z3.And(o)))

    def leafpat(self, v, i, sub):
        # all leaves: choose the first leaf that occurs in the facts
        def occ(e, t):
            return any(e.eq(x) for x in self.subterms(t))
        for a in v.lv:
            s = z3.Select(a, i)
            if any(occ(s, t) for t in sub):
                return s
        return z3.Select(v.lv[0], i)

    def subterms(self, e):
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            yield x
            if z3.is_quantifier(x):
                st.append(x.body())
            else:
                st += x.children()

    def arb(self, ty, subst, name, st):
        """arbitrary value of a type; &mut gets a fresh root"""
        ty = self.norm(ty, subst)
        if ty["k"] == "ref" and ty.get("m"):
            inner = self.arb(ty["t"], subst, name, st)
            root = ("A", name)
            st.store[root] = inner
            self.rootty[root] = (ty["t"], subst)
            return Ptr(root)
        if ty["k"] == "ref":
            return self.arb(ty["t"], subst, name, st)
        if ty["k"] == "ptr" and ty.get("m") and ty["t"]["k"] == "int":
            root = ("B", name)
            st.store[root] = self.arb({"k": "slice", "t": ty["t"]}, subst, name, st)
            self.rootty[root] = ({"k": "slice", "t": ty["t"]}, subst)
            return Agg("rawmut", [Ptr(root), 0])
        if ty["k"] == "tuple":
            return Agg("tuple", [self.arb(t, subst, "%s_%d" % (name, i), st) for i, t in enumerate(ty["a"])])
        if ty["k"] == "adt":
            d = self.crate.adts.get(ty["p"])
            if ty["p"] not in self.tyover and d and d.get("local") and d["kind"] == "struct":
                sub = dict(zip(d.get("gens") or [], [self.norm(x, subst) for x in ty.get("a", [])]))
                return Agg(ty["p"], [self.arb(f["t"], sub, "%s_%s" % (name, f["n"]), st) for f in d["variants"][0]["f"]])
        sh = self.shape(ty, subst)
        v = fresh_of(sh, name)
        o = []
        self.tfacts(v, ty, subst, o)
        st.fact(*o)
        return v

    def havoc(self, v, ty, subst, st, name="h"):
        if v is None or v is MOVED or isinstance(v, (Fn, PyFn)):
            return v
        if isinstance(v, It):
            p = fresh(name + "_pos", I)
            if v.n is not None:
                st.fact(p >= 0, p <= zi(v.n))
            else:
                st.fact(p >= 0)
            return v.with_(pos=p)
        if isinstance(v, Clo):
            return Clo(v.key, [self.havoc(x, None, None, st, name) if not isinstance(x, Ptr) else x for x in v.up], v.subst)
        if isinstance(v, Ptr):
            raise Unsupported("a mutable reference changes in a loop")
        if ty is not None:
            ty = self.norm(ty, subst)
            if ty["k"] not in ("alias",):
                try:
                    nv = self.arb(ty, subst, name, st)
                    if ty["k"] == "ref" and isinstance(nv, SeqV) and isinstance(v, SeqV):
                        # a view of some part of some sequence
                        off = fresh(name + "_off", I)
                        st.fact(off >= 0)
                        return SeqV(nv.sh, nv.lv, off, nv.n)
                    return nv
                except Unsupported:
                    pass
        if isinstance(v, Agg):
            return Agg(v.ty, [self.havoc(x, None, None, st, name) for x in v.f])
        sh = shape_of(v)
        nv = fresh_of(sh, name)
        if isinstance(nv, SeqV):
            st.fact(zi(nv.n) >= 0)
        return nv

    # ------------------------------------------------------------ store
    def load(self, st, ptr):
        if ptr.root not in st.store:
            raise Unsupported("unknown root %s" % (ptr.root,))
        v = st.store[ptr.root]
        for e in ptr.path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if v is None or v is MOVED:
            raise Unsupported("read of moved or uninitialised value")
        if isinstance(v, Ptr):
            v = self.load(st, v)
        if e[0] == "f":
            if isinstance(v, Agg):
                return v.f[e[1]]
            if isinstance(v, Clo):
                return v.up[e[1]]
            raise Unsupported("field %s of %s" % (e[1], type(v).__name__))
        if e[0] == "d":
            if isinstance(v, EnumV):
                p = v.pay.get(e[1])
                if p is None:
                    raise Unsupported("no payload for variant %s of %s" % (e[1], v))
                return p
            return v
        if e[0] == "i":
            if isinstance(v, SeqV):
                return sel(v, e[1])
            if isinstance(v, Agg):
                k = e[1]
                if isz(k):
                    k = z3.simplify(k)
                    if z3.is_int_value(k):
                        k = k.as_long()
                if isinstance(k, int):
                    return v.f[k]
                r = v.f[-1]
                for j in range(len(v.f) - 2, -1, -1):
                    r = ite(k == j, v.f[j], r)
                return r
            raise Unsupported("index into %s" % type(v).__name__)
        if e[0] == "s":
            if isinstance(v, Agg):
                v = self.agg_seq(st, v)
            return SeqV(v.sh, v.lv, add(v.off, e[1]), e[2])
        if e[0] == "m":
            if isinstance(v, MapV):
                return v.get(e[1])
        raise Unsupported("projection %s" % (e,))

    def agg_seq(self, st, v):
        """small array as sequence"""
        if isinstance(v, SeqV):
            return v
        if not v.f:
            raise Unsupported("empty array as slice")
        sh = shape_of(v.f[0])
        lv = [fresh("arr", z3.ArraySort(I, s)) for s in sorts(sh)]
        facts = []
        for i, x in enumerate(v.f):
            ls = encode(sh, x, facts)
            for a, l in zip(lv, ls):
                facts.append(z3.Select(a, i) == l)
        st.fact(*facts)
        return SeqV(sh, lv, 0, len(v.f))

    def canon(self, ptr, e):
        path = list(ptr.path)
        if path and path[-1][0] == "s":
            s = path[-1]
            if e[0] == "i":
                path[-1] = ("i", add(s[1], e[1]))
                return Ptr(ptr.root, path)
            if e[0] == "s":
                path[-1] = ("s", add(s[1], e[1]), e[2])
                return Ptr(ptr.root, path)
        return Ptr(ptr.root, path + [e])

    def assign(self, st, ptr, val):
        sp = []
        for e in ptr.path:
            if e[0] in ("i", "s", "m"):
                break
            sp.append(e)
        st.writes = st.writes | {(ptr.root, tuple(sp))}
        facts = []
        st.store[ptr.root] = self._put(st, st.store.get(ptr.root), list(ptr.path), val, facts)
        st.fact(*facts)

    def _put(self, st, v, path, val, facts):
        if not path:
            return val
        e = path[0]
        if isinstance(v, Ptr):
            p = v
            for x in path:
                p = self.canon(p, x)
            self.assign(st, p, val)
            return v
        if e[0] == "f":
            if v is None or v is MOVED:
                # field-wise initialisation
                v = Agg("?", [MOVED] * (e[1] + 1))
            if isinstance(v, Clo):
                up = list(v.up)
                up[e[1]] = self._put(st, up[e[1]], path[1:], val, facts)
                return Clo(v.key, up, v.subst)
            f = list(v.f)
            while len(f) <= e[1]:
                f.append(MOVED)
            f[e[1]] = self._put(st, f[e[1]], path[1:], val, facts)
            return Agg(v.ty, f)
        if e[0] == "d":
            if not isinstance(v, EnumV):
                raise Unsupported("downcast write")
            pay = dict(v.pay)
            pay[e[1]] = self._put(st, pay[e[1]], path[1:], val, facts)
            return EnumV(v.ty, v.d, pay)
        if e[0] == "i":
            if isinstance(v, SeqV):
                new = self._put(st, sel(v, e[1]), path[1:], val, facts)
                if new is MOVED:
                    return v
                return upd(v, e[1], new, facts)
            if isinstance(v, Agg):
                k = e[1]
                if isz(k):
                    k = z3.simplify(k)
                    if z3.is_int_value(k):
                        k = k.as_long()
                f = list(v.f)
                if isinstance(k, int):
                    f[k] = self._put(st, f[k], path[1:], val, facts)
                else:
                    for j in range(len(f)):
                        f[j] = ite(k == j, self._put(st, f[j], path[1:], val, facts), f[j])
                return Agg(v.ty, f)
        if e[0] == "s":
            if len(path) > 1:
                raise Unsupported("write below subslice")
            if not isinstance(v, SeqV):
                raise Unsupported("subslice write")
            return self.splice(v, e[1], e[2], val, facts)
        if e[0] == "m" and isinstance(v, MapV):
            old = v.get(e[1])
            new = self._put(st, old, path[1:], val, facts)
            ls = encode(v.sh, new, facts)
            return MapV(v.dom, [mstore(a, e[1], l) for a, l in zip(v.lv, ls)], v.ksh, v.sh, v.kind, v.n)
        raise Unsupported("write through %s of %s" % (e, type(v).__name__))

    def splice(self, v, o, n, new, facts):
        """v with elements [o, o+n) replaced by `new`"""
        lo = zi(add(v.off, o))
        out = []
        for a, b in zip(v.lv, new.lv):
            c = fresh("spl", a.sort())
            i = fresh("i", I)
            shift = zi(sub(new.off, add(v.off, o)))
            inside = z3.And(i >= lo, i < lo + zi(n))
            same = isinstance(shift, z3.IntNumRef) and shift.as_long() == 0 or is0(z3.simplify(shift))
            src = z3.Select(b, i) if same else z3.Select(b, i + shift)
            facts.append(z3.ForAll([i], z3.Select(c, i) == z3.If(inside, src, z3.Select(a, i)), patterns=[z3.Select(c, i)]))
            if self.forward:
                out.append(c)
                continue
            if same:
                facts.append(z3.ForAll([i], z3.Implies(inside, z3.Select(c, i) == z3.Select(b, i)), patterns=[z3.Select(b, i)]))
            facts.append(z3.ForAll([i], z3.Implies(z3.Not(inside), z3.Select(c, i) == z3.Select(a, i)), patterns=[z3.Select(a, i)]))
            out.append(c)
        return SeqV(v.sh, out, v.off, v.n)

    # ------------------------------------------------------------ places / operands
    def place(self, st, fr, p):
        """-> Ptr (location) or ('v', value)"""
        cur = Ptr(("L", fr.fid, p[0]))
        val = None
        isloc = True
        for pos, e in enumerate(p[1:]):
            if e == "*":
                v = self.load(st, cur) if isloc else val
                if isinstance(v, Agg) and v.ty in ("rawptr", "rawmut") and (self.place_ty(fr, p[:pos + 1]) or {}).get("k") != "ref":
                    # a raw pointer: element `idx` of an allocation
                    x = self.load(st, v.f[0]) if v.ty == "rawmut" else v.f[0]
                    g = z3.And(0 <= zi(v.f[1]), zi(v.f[1]) < zi(x.n))
                    self.oblige(st, g, "raw pointer dereferenced within its allocation in " + fr.path, "memory")
                    st.fact(g)
                    if v.ty == "rawmut":
                        cur, isloc = self.canon(v.f[0], ("i", v.f[1])), True
                    else:
                        val, isloc = sel(x, v.f[1]), False
                elif isinstance(v, Ptr):
                    cur, isloc = v, True
                elif not isloc:
                    val = v
                # a shared reference or a box: transparent
                continue
            if e[0] == "f":
                x = ("f", e[1])
            elif e[0] == "d":
                x = ("d", e[1])
            elif e[0] == "i":
                x = ("i", st.store[("L", fr.fid, e[1])])
            elif e[0] == "ci":
                if e[3]:
                    v = self.load(st, cur) if isloc else val
                    x = ("i", sub(self.seqlen(v), e[1]))
                else:
                    x = ("i", e[1])
            elif e[0] == "ss":
                v = self.load(st, cur) if isloc else val
                n = self.seqlen(v)
                x = ("s", e[1], sub(sub(n, e[1]), e[2]) if e[3] else e[2] - e[1])
            elif e[0] == "oc":
                continue
            else:
                raise Unsupported("place projection %s" % (e,))
            if isloc:
                # projecting through a stored mutable reference/box is handled by "*"
                cur = self.canon(cur, x)
            else:
                val = self.proj(st, val, x)
        return cur if isloc else ("v", val)

    def seqlen(self, v):
        if isinstance(v, SeqV):
            return v.n
        if isinstance(v, Agg):
            return len(v.f)
        raise Unsupported("length of %s" % type(v).__name__)

    def rd(self, st, fr, p):
        r = self.place(st, fr, p)
        return self.load(st, r) if isinstance(r, Ptr) else r[1]

    def operand(self, st, fr, o):
        if "c" in o:
            return self.rd(st, fr, o["c"])
        if "m" in o:
            r = self.place(st, fr, o["m"])
            if isinstance(r, Ptr):
                v = self.load(st, r)
                if r.root[0] == "L" and not any(e[0] in ("i", "s", "m") for e in r.path):
                    # mark as moved (drops of moved values do nothing)
                    if not self.copyish(v):
                        w = st.writes
                        self.assign(st, r, MOVED)
                        st.writes = w
                return v
            return r[1]
        return self.constant(st, fr, o["k"])

    def copyish(self, v):
        return isz(v) or isinstance(v, (int, bool))

    def constant(self, st, fr, k):
        ty = k.get("ty") or {}
        if "int" in k:
            d = self.crate.adts.get(ty.get("p")) if ty.get("k") == "adt" else None
            if d and d["kind"] == "struct" and self.transparent(ty["p"], d) and len(d["variants"][0]["f"]) == 1:
                return Agg(ty["p"], [int(k["int"])])
            return int(k["int"])
        if "bool" in k:
            return bool(k["bool"])
        if "f64" in k:
            return self.real(k)
        if "str" in k:
            return self.strconst(st, k["str"])
        if "bytes" in k:
            h = self.models.get("bytesconst")
            if h:
                return h(self, st, k["bytes"])
            return self.bytesconst(st, k["bytes"])
        if "zst" in k:
            if ty.get("k") == "fndef":
                return Fn(ty["f"])
            if ty.get("k") == "closure":
                return Clo(ty["key"], [], fr.subst)
            return Agg(self.tyd(ty), [])
        if "emptyslice" in k:
            t = ty
            while t["k"] == "ref":
                t = t["t"]
            sh = self.shape(t, fr.subst)
            if sh[0] == "agg":
                return Agg("array", [])
            return SeqV(sh[1], [fresh("e", z3.ArraySort(I, s)) for s in sorts(sh[1])], 0, 0)
        if "promoted" in k:
            b = self.crate.bodies.get(k.get("of") or fr.key)
            pb = b["promoted"][k["promoted"]]
            return self.evalconst(st, pb, b, fr)
        if "item" in k:
            if k["item"] in ("std::f64::MAX", "core::f64::<impl f64>::MAX", "std::f64::<impl f64>::MAX"):
                return self.FMAX()
            h = self.models.get("const " + k["item"])
            if h:
                return h(self, st)
            b = self.crate.bodies.get(k.get("itemkey"))
            if b:
                return self.evalconst(st, b["body"], b, fr)
            if ty.get("k") == "adt" and ty.get("p") == "std::marker::PhantomData":
                return Agg("PhantomData", [])
            raise Unsupported("constant %s" % k["item"])
        if ty.get("k") == "fndef":
            return Fn(ty["f"])
        if "tyconst" in k and isinstance(k["tyconst"], str) and k["tyconst"].startswith('"'):
            import json
            try:
                return self.strconst(st, json.loads(k["tyconst"]))
            except ValueError:
                pass
        if "static" in k:
            h = self.models.get("static")
            v = h and h(self, st, k["static"])
            if v is not None:
                return v
        raise Unsupported("constant %s" % {a: b for a, b in k.items() if a != "ty"})

    def FMAX(self):
        return z3.Real("F64_MAX")

    def strconst(self, st, s):
        h = self.models.get("strconst")
        if h:
            return h(self, st, s)
        return Opaque("str", z3.Const("str:" + s, OPQ), {"str": s})

    def bytesconst(self, st, b):
        if isinstance(b, str):
            b = list(b.encode("latin1"))
        a = fresh("bytes", z3.ArraySort(I, I))
        st.fact(*[z3.Select(a, i) == x for i, x in enumerate(b)])
        return SeqV(("z", I), [a], 0, len(b))

    def real(self, k):
        f = k["f64"]
        if isinstance(f, str):
            if f in ("inf", "-inf", "NaN", "nan"):
                raise Unsupported("float constant " + f)
            f = float(f)
        if abs(f) > 1.7e308:
            return self.FMAX() if f > 0 else -self.FMAX()
        return z3.RealVal(str(f) if abs(f) < 1e15 and abs(f) > 1e-5 or f == 0 else "%d/%d" % f.as_integer_ratio())

    def evalconst(self, st, body, b, fr):
        rs = self.run(st, body, b["key"] + "#c", b["path"], [], fr.subst)
        if len(rs) != 1:
            raise Unsupported("constant with %d values" % len(rs))
        st2, v = rs[0]
        st.store, st.pc, st.trace = st2.store, st2.pc, st2.trace
        # promoted: a reference to a local of the constant's frame
        if isinstance(v, Ptr):
            v = self.load(st, v)
        return v

    # ------------------------------------------------------------ solving helpers
    def feasible(self, st, cond=None):
        import time
        if cond is not None:
            c = z3.simplify(zb(cond))
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        else:
            c = None
        t = time.time()
        s = z3.SolverFor("QF_AUFNIRA") if False else z3.Solver()
        s.set("timeout", 150)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        for e in st.facts():
            s.add(e)
        if c is not None:
            s.add(c)
        r = s.check()
        self.stats["feas"] += 1
        self.stats["feas_s"] += time.time() - t
        return r != z3.unsat

    def oblige(self, st, goal, label, kind="assert", line=None, extra=()):
        self.nobl += 1
        if self.dry:
            return
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        self.obls.append(Obligation(self.fn, label, kind, line or self.line, list(st.facts()), goal, extra))

    # ------------------------------------------------------------ execution
    def run(self, st, body, key, path, args, subst, top=False):
        if self.depth > 40:
            raise Unsupported("inlining too deep at " + path)
        self.fid += 1
        ck = id(body)
        if ck not in self.cache:
            lp, succ = natural_loops(body)
            self.cache[ck] = (lp, liveness(body, succ) if lp else None, body)
        loops, live, _ = self.cache[ck]
        fr = Frame(self.fid, body, key, path, subst or {}, (loops, live))
        st = st.copy()
        for i, a in enumerate(args):
            st.store[("L", fr.fid, i + 1)] = a
        for i in range(len(body["locals"])):
            st.store.setdefault(("L", fr.fid, i), None)
            self.rootty[("L", fr.fid, i)] = (body["locals"][i], fr.subst)
        self.depth += 1
        outer = st.loops
        st.loops = ()
        oldkey, oldline = self.curkey, self.line
        self.curkey = path
        try:
            res = []
            work = [(st, 0)]
            while work:
                s, bb = work.pop()
                r = self.block(s, fr, bb, work, top)
                if r is not None:
                    res.append(r)
            out = []
            for s, v in res:
                for i in range(len(body["locals"])):
                    if i != 0 or True:
                        pass
                s.loops = outer
                out.append((s, v))
            return out
        finally:
            self.depth -= 1
            self.curkey, self.line = oldkey, oldline

    def loopspec(self, fr, h):
        idx = sorted(fr.loops[0]).index(h)
        return self.loopspecs.get((fr.path, idx)), idx

    def enter_block(self, st, fr, bb):
        """loop bookkeeping; returns list of states to continue with (empty: path ends)"""
        loops, live = fr.loops
        # leave loops
        while st.loops and bb not in loops[st.loops[-1][0]]:
            st.loops = st.loops[:-1]
        if bb not in loops:
            return [st]
        spec, idx = self.loopspec(fr, bb)
        if st.loops and st.loops[-1][0] == bb:
            top = st.loops[-1]
            if top[1] == "dry":
                top[2].append(st)
                return []
            if top[1] == "unroll":
                n = top[2] + 1
                if n > self.unroll_max:
                    raise Unsupported("loop %d of %s has no invariant" % (idx, fr.path))
                st.loops = st.loops[:-1] + ((bb, "unroll", n),)
                return [st]
            # back edge of a loop with invariant
            info = top[2]
            c = LoopCtx(self, st, fr, info["entry"], info["head"])
            done = {}
            for e in spec.inv(c):
                # an entry may use earlier ones (each is an obligation of its own) and lemma instances
                lab, g, o = e[0], e[1], e[2] if len(e) > 2 else {}
                self.oblige(st, g, "loop %d keeps: %s" % (idx, lab), "invariant", extra=c.extra + [done[u] for u in o.get("use", ())] + list(o.get("lemmas", ())))
                done[lab] = g
            if spec.decreases:
                c0 = LoopCtx(self, info["head"], fr, info["entry"], info["head"])
                m0 = spec.decreases(c0)
                m1 = spec.decreases(c)
                self.oblige(st, z3.And(zi(m1) < zi(m0), zi(m0) >= 0), "loop %d terminates" % idx, "termination", extra=c.extra)
            return []
        if spec is None:
            if self.foreach_rule:
                r = self.foreach_rule(st, fr, bb)
                if r is not None:
                    st = r
            st.loops = st.loops + ((bb, "unroll", 0),)
            self.stats["unrolled"].add((fr.path, idx))
            return [st]
        entry = st.copy()
        c = LoopCtx(self, st, fr, entry, None)
        for e in spec.inv(c):
            lab, g = e[0], e[1]
            self.oblige(st, g, "loop %d starts: %s" % (idx, lab), "invariant", extra=c.extra)
        # havoc what the body may change
        mods = set()
        for _ in range(6):
            s = st.copy()
            s.loops = ()
            self.do_havoc(s, fr, bb, mods)
            # the invariant has to be known while discovering the modified set (panics etc. are not recorded)
            backs = []
            s.writes = frozenset()
            s.loops = ((bb, "dry", backs),)
            cd = LoopCtx(self, s, fr, entry, None)
            s.fact(*[e[1] for e in spec.inv(cd)])
            self.dry += 1
            try:
                work = []
                self._from(s, fr, bb, work)
                while work:
                    s2, b2 = work.pop()
                    # stop at loop exits
                    if b2 not in loops[bb]:
                        continue
                    self.block(s2, fr, b2, work, False)
            finally:
                self.dry -= 1
            new = set()
            for b in backs:
                new |= set(b.writes)
            new = {(r, p) for (r, p) in new if r in entry.store and entry.store[r] is not None}
            if new <= mods:
                break
            mods |= new
        else:
            raise Unsupported("modified set of loop %d of %s" % (idx, fr.path))
        # drop prefixed
        h = st.copy()
        self.do_havoc(h, fr, bb, mods)
        ch = LoopCtx(self, h, fr, entry, None)
        h.fact(*[e[1] for e in spec.inv(ch)])
        h.fact(*ch.extra)
        if not self.dry:
            self.covers.append(("%s: head of loop %d reachable" % (fr.path, idx), list(h.facts()), list(entry.facts())))
        head = h.copy()
        h.loops = h.loops + ((bb, "spec", {"entry": entry, "head": head}),)
        return [h]

    def do_havoc(self, s, fr, bb, mods):
        live = fr.loops[1][bb]
        for root, path in sorted(mods, key=str):
            if any((root, path[:i]) in mods for i in range(len(path))):
                continue
            if root[0] == "L" and root[1] == fr.fid and root[2] not in live:
                s.store[root] = None
                continue
            v = self.load(s, Ptr(root, path))
            ty, sub = self.type_at(root, path)
            nv = self.havoc(v, ty, sub, s, "h%s" % (root[-1],))
            self.assign(s, Ptr(root, path), nv)

    def type_at(self, root, path):
        if root not in self.rootty:
            return None, None
        ty, sub = self.rootty[root]
        for e in path:
            ty = self.norm(ty, sub)
            while ty["k"] == "ref" or (ty["k"] == "adt" and ty["p"] in ("std::boxed::Box",)):
                ty = self.norm(ty["t"] if ty["k"] == "ref" else ty["a"][0], sub)
            if ty["k"] == "tuple" and e[0] == "f":
                ty = ty["a"][e[1]]
            elif ty["k"] == "adt" and e[0] == "f":
                d = self.crate.adts.get(ty["p"])
                if not d or d["kind"] != "struct":
                    return None, None
                sub = dict(zip(d.get("gens") or [], [self.norm(x, sub) for x in ty.get("a", [])]))
                ty = d["variants"][0]["f"][e[1]]["t"]
            else:
                return None, None
        return ty, sub

    def _from(self, st, fr, bb, work):
        """execute block bb itself without loop bookkeeping"""
        r = self.block_body(st, fr, bb, work, False)
        return r

    def block(self, st, fr, bb, work, top):
        sts = self.enter_block(st, fr, bb)
        r = None
        for s in sts:
            r = self.block_body(s, fr, bb, work, top)
        return r

    def block_body(self, st, fr, bb, work, top):
        bl = fr.body["blocks"][bb]
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[1])
                r = self.place(st, fr, s[1])
                if not isinstance(r, Ptr):
                    raise Unsupported("assignment to a value")
                self.assign(st, r, v)
            elif k == "dead":
                st.store[("L", fr.fid, s[1])] = None
            elif k == "setd":
                r = self.place(st, fr, s[1])
                v = self.load(st, r)
                self.assign(st, r, EnumV(v.ty, s[2], v.pay))
            else:
                raise Unsupported("statement " + k)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            work.append((st, t[1]))
        elif k == "switch":
            self.do_switch(st, fr, t, work)
        elif k == "return":
            self.stats["paths"] += 1
            v = st.store.get(("L", fr.fid, 0))
            if v is None:
                v = UNIT
            st2 = st
            return (st2, v)
        elif k == "drop":
            r = self.place(st, fr, t[1])
            try:
                v = self.load(st, r) if isinstance(r, Ptr) else r[1]
            except Unsupported:
                v = MOVED
            self.drop(st, v)
            if isinstance(r, Ptr) and r.root[0] == "L" and not any(e[0] in ("i", "s", "m") for e in r.path):
                try:
                    w = st.writes
                    self.assign(st, r, MOVED)
                    st.writes = w
                except Unsupported:
                    pass
            work.append((st, t[2]))
        elif k == "assert":
            c = self.operand(st, fr, t[1])
            g = zb(c) if t[2] else z3.Not(zb(c))
            self.line = t[6] if len(t) > 6 and t[6] else self.line
            self.oblige(st, g, "%s in %s" % (str(t[3])[:60], fr.path), "panic", self.line)
            st.fact(g)
            work.append((st, t[5]))
        elif k == "call":
            self.line = t[5] if len(t) > 5 and t[5] else self.line
            for s2, v in self.call(st, fr, t):
                if t[4] is None:
                    continue
                r = self.place(s2, fr, t[3])
                self.assign(s2, r, v)
                work.append((s2, t[4]))
        elif k == "unreachable":
            if self.feasible(st):
                self.oblige(st, z3.BoolVal(False), "unreachable code in " + fr.path, "panic")
        elif k in ("resume",):
            pass
        else:
            raise Unsupported("terminator " + k)
        return None

    def do_switch(self, st, fr, t, work):
        v = self.operand(st, fr, t[1])
        ty = t[4] if len(t) > 4 else None
        if isinstance(v, bool):
            v = 1 if v else 0
        if isz(v):
            v = z3.simplify(v)
            if z3.is_int_value(v):
                v = v.as_long()
            elif z3.is_true(v):
                v = 1
            elif z3.is_false(v):
                v = 0
        signed = None
        if ty and ty.get("k") == "int" and ty.get("n", "u")[0] == "i":
            lo, hi = INT_RANGE[ty["n"]]
            signed = hi

        def val(x):
            x = int(x)
            if signed is not None and x > signed:
                x -= 2 * (signed + 1)
            return x
        if isinstance(v, int):
            for x, bb in t[2]:
                if val(x) == v:
                    work.append((st, bb))
                    return
            work.append((st, t[3]))
            return
        conds = []
        isb = v.sort() == B
        for x, bb in t[2]:
            c = (v if val(x) else z3.Not(v)) if isb else v == val(x)
            conds.append((c, bb))
        rest = z3.And([z3.Not(c) for c, _ in conds])
        for c, bb in conds + [(z3.simplify(rest), t[3])]:
            if self.feasible(st, c):
                s = st.copy()
                s.branch(c)
                work.append((s, bb))

    def drop(self, st, v):
        """releases write guards"""
        if v is None or v is MOVED or isz(v) or isinstance(v, (int, bool)):
            return
        if isinstance(v, Guard):
            if v.val is None and getattr(v, "id", None) is not None and HELD in st.store and self.is_wguard(v):
                h = st.store[HELD]
                st.store[HELD] = SetV(z3.Store(h.arr, zi(v.id), False), h.sh)
                st.writes = st.writes | {(HELD, ())}
                st.trace = st.trace + (("release", v.id),)
            return
        if isinstance(v, (Agg,)):
            for x in v.f:
                self.drop(st, x)
        elif isinstance(v, EnumV):
            if isinstance(v.d, int):
                self.drop(st, v.pay.get(v.d))
        elif isinstance(v, It):
            s = v.meta.get("owned")
            if isinstance(s, SeqV):
                self.drop_seq(st, s, v.pos)
        elif isinstance(v, SeqV):
            self.drop_seq(st, v, 0)

    def is_wguard(self, g):
        return True

    def drop_seq(self, st, s, frm):
        if s.sh == ("wguard",) or s.sh == ("guard",) and self.guardseq(s):
            h = st.store[HELD]
            n = fresh("held", h.arr.sort())
            i = fresh("i", I)
            st.fact(z3.ForAll([i], z3.Implies(z3.And(i >= zi(add(s.off, frm)), i < zi(add(s.off, s.n))), z3.Not(z3.Select(n, z3.Select(s.lv[0], i)))), patterns=[z3.Select(s.lv[0], i)]))
            st.fact(z3.ForAll([i], z3.Implies(z3.Select(n, i), z3.Select(h.arr, i)), patterns=[z3.Select(n, i)]))
            st.store[HELD] = SetV(n, h.sh)
            st.writes = st.writes | {(HELD, ())}
            st.trace = st.trace + (("release*", s),)

    def guardseq(self, s):
        # RwLock and guard share a shape; only sequences created by acquisition are guards
        return any(a.get_id() in self.cache.setdefault("guardarrs", set()) for a in s.lv)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            p = self.place(st, fr, r[2])
            if r[1] == "mut":
                if not isinstance(p, Ptr):
                    raise Unsupported("mutable borrow of a value")
                return p
            if isinstance(p, Ptr):
                return self.load(st, p)
            return p[1]
        if k == "raw":
            p = self.place(st, fr, r[2])
            return p if isinstance(p, Ptr) else p[1]
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, dest, r)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, bool):
                    return not a
                if isz(a) and a.sort() == B:
                    return z3.Not(a)
                raise Unsupported("bitwise not")
            if r[1] == "Neg":
                return -a
            if r[1] == "PtrMetadata":
                return self.seqlen(a if not isinstance(a, Ptr) else self.load(st, a))
            raise Unsupported("unary " + r[1])
        if k == "discr":
            v = self.rd(st, fr, r[1])
            if isinstance(v, Ptr):
                v = self.load(st, v)
            return self.discr(v)
        if k == "len":
            return self.seqlen(self.rd(st, fr, r[1]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a["k"] == "tuple":
                return Agg("tuple", ops)
            if a["k"] == "array":
                return Agg("array", ops)
            if a["k"] == "closure":
                return Clo(a["key"], ops, fr.subst)
            if a["k"] == "adt":
                d = self.crate.adts.get(a["p"])
                if d and d["kind"] == "enum":
                    return EnumV(a["p"], a["v"], {a["v"]: Agg(a["p"], ops)})
                return Agg(a["p"], ops)
            raise Unsupported("aggregate " + a["k"])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = int(n["k"]["int"]) if isinstance(n, dict) and "k" in n else int(n)
            if n <= 16:
                return Agg("array", [v] * n)
            sh = shape_of(v)
            lv = []
            facts = []
            for l in encode(sh, v, facts):
                lv.append(z3.K(I, l))
            st.fact(*facts)
            return SeqV(sh, lv, 0, n)
        if k == "cast":
            return self.cast(st, fr, r)
        raise Unsupported("rvalue " + k)

    def discr(self, v):
        if not isinstance(v, EnumV):
            raise Unsupported("discriminant of %s" % type(v).__name__)
        d = self.crate.adts.get(v.ty)
        ds = [int(x["d"]) for x in d["variants"]] if d else None
        if v.ty == "std::cmp::Ordering":
            ds = [-1, 0, 1]
        if ds is None or ds == list(range(len(ds))):
            return v.d
        if isinstance(v.d, int):
            return ds[v.d]
        r = z3.IntVal(ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = z3.If(v.d == i, z3.IntVal(ds[i]), r)
        return r

    def cast(self, st, fr, r):
        kind, v, ty = r[1], self.operand(st, fr, r[2]), self.norm(r[3], fr.subst)
        if isinstance(v, Ptr) and kind in ("IntToInt",):
            raise Unsupported("pointer cast")
        if kind == "IntToInt":
            if isinstance(v, bool):
                return 1 if v else 0
            if isz(v) and v.sort() == B:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, EnumV):
                v = self.discr(v)
            if ty["k"] == "char":
                return v
            lo, hi = INT_RANGE[ty["n"]]
            if isinstance(v, int):
                w = (v - lo) % (hi - lo + 1) + lo
                return w
            e = z3.And(v >= lo, v <= hi)
            m = hi - lo + 1
            w = fresh("cast", I)
            st.fact(z3.Implies(e, w == v), w >= lo, w <= hi, (w - v) % m == 0)
            return w
        if kind == "IntToFloat":
            return z3.ToReal(zi(v))
        if kind == "FloatToInt":
            lo, hi = INT_RANGE[ty["n"]]
            w = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return z3.If(w < lo, z3.IntVal(lo), z3.If(w > hi, z3.IntVal(hi), w))
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "FloatToFloat", "Subtype"):
            if kind == "Transmute" and not isinstance(v, (SeqV, Agg, EnumV)):
                raise Unsupported("transmute")
            return v
        raise Unsupported("cast " + kind)

    def opty(self, fr, o):
        if "k" in o:
            return o["k"].get("ty")
        p = o.get("c") or o.get("m")
        return self.place_ty(fr, p)

    def place_ty(self, fr, p):
        ty = fr.body["locals"][p[0]]
        for e in p[1:]:
            if e == "*":
                ty = ty["t"] if "t" in ty else (ty.get("a") or [None])[0]
            elif e[0] == "f" and len(e) > 2:
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = ty["t"] if "t" in ty else (ty.get("a") or [None])[0]
            if ty is None:
                return None
        return ty

    def binop(self, st, fr, op, a, b, dest, r):
        if isinstance(a, EnumV):
            a = self.discr(a)
        if isinstance(b, EnumV):
            b = self.discr(b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmpop(op, a, b)
        ty = self.opty(fr, r[2])
        real = (isz(a) and a.sort() == R) or (isz(b) and b.sort() == R)
        if real:
            if op == "Div" and not getattr(self, "divzero", False):
                # divzero: a quotient by zero (infinite or not a number, no panic) is left unspecified
                self.oblige(st, b != 0, "division by zero in " + fr.path, "panic")
                st.fact(b != 0)
            return self.arith(op, a, b)
        if (isinstance(a, bool) or isz(a) and a.sort() == B):
            if op == "BitAnd":
                return z3.And(zb(a), zb(b))
            if op == "BitOr":
                return z3.Or(zb(a), zb(b))
            if op == "BitXor":
                return z3.Xor(zb(a), zb(b))
        ty = self.norm(ty, fr.subst) if ty else None
        if op.endswith("WithOverflow"):
            v = self.arith(op[:-12], a, b)
            lo, hi = INT_RANGE[ty["n"]]
            if isinstance(v, int):
                return Agg("tuple", [v, not (lo <= v <= hi)])
            return Agg("tuple", [v, z3.Not(z3.And(v >= lo, v <= hi))])
        if op in ("Add", "Sub", "Mul"):
            v = self.arith(op, a, b)
            lo, hi = INT_RANGE[ty["n"]]
            if isinstance(v, int):
                return (v - lo) % (hi - lo + 1) + lo
            self.oblige(st, z3.And(v >= lo, v <= hi), "no wrap-around in " + fr.path, "panic")
            return v
        if op in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int) and b > 0 and a >= 0:
                return a // b if op == "Div" else a % b
            a, b = zi(a), zi(b)
            lo, hi = INT_RANGE[ty["n"]]
            if lo < 0:
                # truncated division
                q = z3.If(z3.And(a < 0, b > 0), -((-a) / b), z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), z3.If(z3.And(a < 0, b < 0), (-a) / (-b), a / b)))
                return q if op == "Div" else a - q * b
            return a / b if op == "Div" else a % b
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and isinstance(b, int):
            lo, hi = INT_RANGE[ty["n"]]
            if op.startswith("Shl"):
                v = zi(a) * (2 ** b)
                return z3.simplify(v % (hi + 1))
            return zi(a) / (2 ** b)
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        if op == "BitAnd" and (isinstance(b, int) and (b & (b + 1)) == 0):
            return zi(a) % (b + 1)
        raise Unsupported("binary %s" % op)

    def arith(self, op, a, b):
        if isinstance(a, int) and isz(b) and b.sort() == R:
            a = z3.RealVal(a)
        if isinstance(b, int) and isz(a) and a.sort() == R:
            b = z3.RealVal(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "Div":
            return a / b
        raise Unsupported(op)

    def cmpop(self, op, a, b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if op == "Eq":
            return eqv(a, b)
        if op == "Ne":
            return z3.Not(eqv(a, b))
        if isinstance(a, Agg) or isinstance(a, Ptr):
            raise Unsupported("comparison of %s" % type(a).__name__)
        a, b = zi(a) if not isinstance(a, bool) else zb(a), zi(b) if not isinstance(b, bool) else zb(b)
        return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        c = t[1]
        if "dynop" in c:
            f = self.operand(st, fr, c["dynop"])
            args = [self.operand(st, fr, a) for a in t[2]]
            return self.apply(st, f, args)
        args = [self.operand(st, fr, a) for a in t[2]]
        return self.dispatch(st, fr, c, args)

    def dispatch(self, st, fr, c, args):
        r = c.get("r")
        p = c["p"]
        rp = r["p"] if r else None
        info = CallInfo(self, fr, c)
        # contracts on crate functions
        for q in (rp, p if not r else None):
            if q and q in self.contracts and self.contracts[q].active and q not in self.inline_only:
                return self.call_contract(st, self.contracts[q], args, info)
        for q in (rp, p):
            if q and q in self.models:
                self.stats["models"].add(q)
                m = self.models[q]
                res = m(self, st, args, info)
                if res is not NotImplemented:
                    return res
        key = (r or c).get("key")
        local = (r or c).get("local")
        if not (r or {}).get("virt") and local and key in self.crate.bodies:
            b = self.crate.bodies[key]
            if "trait" in c and not r and c.get("trait"):
                # unresolved trait method: default body must not be assumed
                im = self.find_impl(fr, c, args)
                if im is None:
                    if (c["p"],) in self.traitspecs:
                        pass
                    raise Unsupported("unresolved trait method " + p)
                b, sub = im
                return self.inline(st, b, args, sub)
            sub = self.subst_for(b, (r or c).get("a"), fr)
            return self.inline(st, b, args, sub)
        if c.get("trait") and not r:
            im = self.find_impl(fr, c, args)
            if im is not None:
                return self.inline(st, im[0], args, im[1])
        if "{constructor#" in (c.get("key") or ""):
            v = self.construct(p, args)
            if v is not None:
                return [(st, v)]
        if "panic" in p or p.startswith("core::panicking"):
            self.oblige(st, z3.BoolVal(False), "panic reachable in %s (%s)" % (fr.path, p.split("::")[-1]), "panic")
            return []
        raise Unsupported("no model for %s%s" % (p, " => " + rp if rp and rp != p else ""))

    def construct(self, p, args):
        """tuple constructor used as a function"""
        d = self.crate.adts.get(p)
        if d and d["kind"] == "struct":
            return Agg(p, args)
        q, _, v = p.rpartition("::")
        d = self.crate.adts.get(q)
        if d and d["kind"] == "enum":
            for i, x in enumerate(d["variants"]):
                if x.get("n") == v:
                    return EnumV(q, i, {i: Agg(q, args)})
        return None

    def subst_for(self, b, targs, fr):
        g = b.get("gens") or []
        a = [self.norm(x, fr.subst) for x in (targs or [])]
        sub = {}
        if len(g) == len(a):
            sub = {n: t for n, t in zip(g, a) if not (t["k"] == "param" and t["n"] == n)}
        return sub

    def find_impl(self, fr, c, args):
        """resolve a trait method on a type parameter that the frame substitutes by a concrete type"""
        a = c.get("a") or []
        if not a:
            return None
        self_ty = self.norm(a[0], fr.subst)
        while self_ty["k"] == "ref":
            self_ty = self_ty["t"]
        if self_ty["k"] != "adt":
            return None
        for b in self.crate.bodies.values():
            if b.get("trait") == c.get("trait") and b.get("name") == c.get("name") and b.get("implself"):
                s = b["implself"]
                while s["k"] == "ref":
                    s = s["t"]
                if s["k"] == "adt" and s["p"] == self_ty["p"]:
                    return b, dict(zip([x["n"] for x in s.get("a", []) if x["k"] == "param"], [y for x, y in zip(s.get("a", []), self_ty.get("a", [])) if x["k"] == "param"]))
        return None

    def inline(self, st, b, args, subst):
        self.stats["inlined"].add(b["path"])
        stack = self.cache.setdefault("stack", [])
        if stack.count(b["path"]) >= 3:
            raise Unsupported("recursive call of %s without contract" % b["path"])
        stack.append(b["path"])
        try:
            return self.run(st, b["body"], b["key"], b["path"], args, subst)
        finally:
            stack.pop()

    def apply(self, st, f, args):
        """call a function value"""
        if isinstance(f, Ptr):
            f = self.load(st, f)
        if isinstance(f, PyFn):
            return f.fn(self, st, args)
        if isinstance(f, Clo):
            b = self.crate.bodies[f.key]
            self_ty = b["body"]["locals"][1]
            me = f
            if self_ty["k"] == "ref" and self_ty.get("m"):
                root = ("C", fresh("c", I).decl().name())
                s = st.copy()
                s.store[root] = f
                res = self.inline(s, b, [Ptr(root)] + args, f.subst)
                for s2, v in res:
                    if s2.store[root] is not f and not self.same_clo(s2.store[root], f):
                        raise Unsupported("closure with internal state")
                return res
            return self.inline(st, b, [f] + args, f.subst)
        if isinstance(f, Fn):
            d = f.f
            fr = Frame(-1, None, None, self.curkey, {}, None)
            return self.dispatch(st, fr, d, args)
        if isinstance(f, Opaque) and f.info.get("call"):
            return f.info["call"](self, st, args)
        raise Unsupported("call of %s" % type(f).__name__)

    def same_clo(self, a, b):
        return isinstance(a, Clo) and all(x is y or (isz(x) and isz(y) and x.eq(y)) for x, y in zip(a.up, b.up))

    def call_contract(self, st, con, args, info):
        self.stats["contracts_used"].add(con.path)
        st = st.copy()
        c = CallCtx(self, st, args, con)
        for lab, g in con.requires(c):
            self.oblige(st, g, "precondition of %s: %s" % (con.short, lab), "precondition", extra=c.extra)
            st.fact(g)
        if con.decreases and self.cur_contract is con:
            m1 = con.decreases(c)
            self.oblige(st, z3.And(zi(m1) < zi(self.cur_measure), zi(self.cur_measure) >= 0), "recursion decreases", "termination", extra=c.extra)
        pre = st.copy()
        c.pre_st = pre
        # havoc modified
        for i, paths in con.modifies.items():
            if i == "heap":
                st.store[HEAP] = self.havoc(st.store[HEAP], None, None, st, "heap")
                st.writes = st.writes | {(HEAP, ())}
                continue
            if i == "held":
                st.store[HELD] = SetV(fresh("held", st.store[HELD].arr.sort()), st.store[HELD].sh)
                st.writes = st.writes | {(HELD, ())}
                continue
            if isinstance(i, tuple):
                # a ghost location
                self.assign(st, Ptr(i), self.havoc(st.store[i], None, None, st, "g"))
                continue
            if not isinstance(args[i], Ptr):
                raise Unsupported("contract of %s: argument %d is no mutable reference" % (con.path, i))
            for p in paths:
                ptr = args[i]
                for e in p:
                    ptr = self.canon(ptr, e)
                old = self.load(st, ptr)
                if isinstance(old, SeqV) and con.keeplen:
                    nv = SeqV(old.sh, [fresh("m", a.sort()) for a in old.lv], old.off, old.n)
                    nv.lv = [fresh("m", a.sort()) for a in old.lv]
                else:
                    ty, sub = self.type_at(ptr.root, ptr.path)
                    nv = self.havoc(old, ty, sub, st, "m")
                self.assign(st, ptr, nv)
        c.st = st
        outs = con.returns(c, info)
        res = []
        for s2, ret in outs:
            c2 = CallCtx(self, s2, args, con)
            c2.pre_st, c2.ret, c2.caller = pre, ret, True
            before = s2.copy() if CHECK_CALLS else None
            s2.fact(*[e[1] for e in con.ensures(c2)])
            s2.fact(*c2.extra)
            if before is not None and not self.feasible(s2) and self.feasible(before):
                # development aid: what a callee ensures contradicts one of its outcomes
                print("CONTRADICTION: %s in %s" % (con.short, fr_name(self)))
            if con.tell:
                # the call is recorded for the postcondition of the caller
                s2.trace = s2.trace + (con.tell(c2),)
            res.append((s2, ret))
        return res


CHECK_CALLS = bool(os.environ.get("CHECK_CALLS"))


def fr_name(eng):
    return "%s line %s" % (eng.fn, eng.line)


class CallInfo:
    def __init__(self, eng, fr, c):
        self.eng, self.fr, self.c = eng, fr, c

    @property
    def targs(self):
        return [self.eng.norm(x, self.fr.subst) for x in (self.c.get("a") or [])]

    def destty(self):
        return None


class Ctx:
    def __init__(self):
        self.extra = []

    def lemma(self, *fs):
        """instances of separately proven lemmas, added to the obligation"""
        self.extra += list(fs)


class CallCtx(Ctx):
    """what a contract sees: arguments (values at entry), states before and after, result"""

    def __init__(self, eng, st, args, con):
        super().__init__()
        self.eng, self.st, self.a, self.con = eng, st, args, con
        self.pre_st, self.ret = st, None
        self.caller = False     # seen by a caller: no execution trace to refer to

    def old(self, i, *path):
        return self._get(self.pre_st, i, path)

    def new(self, i, *path):
        return self._get(self.st, i, path)

    def _get(self, st, i, path):
        v = self.a[i]
        if isinstance(v, Ptr):
            p = v
            for e in path:
                p = self.eng.canon(p, ("f", e) if isinstance(e, int) else e)
            return self.eng.load(st, p)
        for e in path:
            v = self.eng.proj(st, v, ("f", e) if isinstance(e, int) else e)
        return v

    def heap0(self):
        return self.pre_st.store[HEAP]

    def heap1(self):
        return self.st.store[HEAP]

    def held0(self):
        return self.pre_st.store[HELD].arr

    def held1(self):
        return self.st.store[HELD].arr


class LoopCtx(Ctx):
    def __init__(self, eng, st, fr, entry, head):
        super().__init__()
        self.eng, self.st, self.fr, self.entry, self.head = eng, st, fr, entry, head
        self.call = getattr(eng, "cur_ctx", None)

    def _find(self, name, nth=None):
        c = []
        for d in self.fr.body["debug"]:
            if d["n"] == name and isinstance(d["v"], list):
                c.append(d["v"])
        if not c:
            raise Unsupported("no variable `%s` in %s" % (name, self.fr.path))
        return c

    def _val(self, st, name):
        """`name'` is the last of several variables of this name"""
        last = None
        ps = list(self._find(name.rstrip("'")))
        for p in reversed(ps) if name.endswith("'") else ps:
            try:
                v = self.eng.rd(st, self.fr, p)
            except Unsupported:
                continue
            if v is not None and v is not MOVED:
                last = v
                break
        if last is None:
            raise Unsupported("variable `%s` of %s is not available" % (name, self.fr.path))
        return last

    def v(self, name):
        """value of a source variable (mutable references are followed)"""
        x = self._val(self.st, name)
        return self.eng.load(self.st, x) if isinstance(x, Ptr) else x

    def ptr(self, name):
        return self._val(self.st, name)

    def v0(self, name):
        x = self._val(self.entry, name)
        return self.eng.load(self.entry, x) if isinstance(x, Ptr) else x

    def at_entry(self, ptr):
        return self.eng.load(self.entry, ptr)

    def it(self):
        """the iterator of a `for` loop: the It-valued local called `iter` that is live"""
        c = self.its()
        if not c:
            # an iterator that is advanced explicitly
            for d in self.fr.body["debug"]:
                if isinstance(d["v"], list) and len(d["v"]) == 1:
                    v = self.st.store.get(("L", self.fr.fid, d["v"][0]))
                    if isinstance(v, It) and all(w is not v for _, w in c):
                        c.append((d["v"][0], v))
            if len(c) != 1:
                raise Unsupported("loop of %s has no iterator" % self.fr.path)
        return c[-1][1]

    def its(self):
        """iterators of the `for` loops around this point, innermost last: [(local, value)]"""
        c = []
        for d in self.fr.body["debug"]:
            if isinstance(d["v"], list) and len(d["v"]) == 1 and d["n"] == "iter":
                r = ("L", self.fr.fid, d["v"][0])
                v = self.st.store.get(r)
                if isinstance(v, It) and isinstance(self.entry.store.get(r), It):
                    c.append((d["v"][0], v))
        return c

    def heap(self):
        return self.st.store[HEAP]

    def heap_entry(self):
        return self.entry.store[HEAP]

    def arg(self, i):
        return self.st.store[("L", self.fr.fid, i + 1)]


class LoopSpec:
    def __init__(self, inv, decreases=None):
        self.inv, self.decreases = inv, decreases


class Contract:
    """Specification of one crate function, addressed by its path."""
    active = True
    keeplen = False
    forward = False
    tell = None

    def __init__(self, path, requires=None, ensures=None, modifies=None, returns=None, decreases=None, setup=None,
                 loops=None, props=(), interference=False, pre=None, subst=None, config=None, covers=None, trusted=False):
        self.path = path
        self.short = re.sub(r"<impl |std::|::<'a>", "", path)
        self._req, self._ens = requires, ensures
        self.modifies = modifies or {}
        self._ret = returns
        self.decreases = decreases
        self.setup = setup
        self.loops = loops or {}
        self.props = props
        self.interference = interference
        self.pre = pre
        self.subst = subst or {}
        self.config = config
        self.covers = covers
        self.trusted = trusted

    def requires(self, c):
        return self._req(c) if self._req else []

    def ensures(self, c):
        return self._ens(c) if self._ens else []

    def returns(self, c, info):
        if self._ret:
            r = self._ret(c)
            return r if isinstance(r, list) else [(c.st, r)]
        b = c.eng.crate.bypath[self.path][0]
        ty = b["body"]["locals"][0]
        sub = c.eng.subst_for(b, (info.c.get("r") or info.c).get("a"), info.fr)
        sub = dict(sub, **self.subst)
        return [(c.st, c.eng.arb(ty, sub, "ret", c.st))]


def verify(eng, con):
    """symbolically execute one function against its contract; obligations accumulate in eng.obls"""
    bs = eng.crate.bypath.get(con.path)
    if not bs:
        raise Unsupported("function %s not found" % con.path)
    b = bs[0]
    eng.fn = con.short
    eng.curkey = con.path
    eng.line = b["line"]
    eng.interference = con.interference
    eng.forward = con.forward
    eng.cache["stack"] = []
    st = State()
    if con.pre:
        con.pre(eng, st)
    init_heap(eng, st)
    body = b["body"]
    args = None
    if con.setup:
        eng.building = con
        args = con.setup(eng, st, b)
    if args is None:
        args = default_args(eng, st, b, con)
    c = CallCtx(eng, st, args, con)
    npre = len(st.pc)
    reqs = con.requires(c)
    st.fact(*[g for _, g in reqs])
    st.fact(*c.extra)
    pre = st.copy()
    c.pre_st = pre
    if getattr(con, "facts", None):
        # instances of lemmas and definitions that hold throughout
        st.fact(*con.facts(c))
    eng.cur_contract, eng.cur_ctx = con, c
    eng.cur_measure = con.decreases(c) if con.decreases else None
    eng.covers.append((con.short + ": precondition satisfiable", list(st.facts())))
    for i, sp in con.loops.items():
        eng.loopspecs[(con.path, i)] = sp
    if con.loops:
        nl = len(natural_loops(body)[0])
        if nl != getattr(con, "nloops", len(con.loops)):
            raise Unsupported("the loops of the function are not those its invariants were written for")
    n0 = len(eng.obls)
    res = eng.run(st, body, b["key"], con.path, args, con.subst, top=True)
    nret = 0
    for s, ret in res:
        nret += 1
        c2 = CallCtx(eng, s, args, con)
        c2.pre_st, c2.ret = pre, ret
        done = {}
        for e in con.ensures(c2):
            lab, g = e[0], e[1]
            o = e[2] if len(e) > 2 else {}
            # a postcondition may use earlier ones (each is an obligation of its own) and lemma instances
            s3 = s
            if o.get("only"):
                # weaker premises: the branch conditions, the earlier postconditions and lemmas named here
                s3 = s.copy()
                s3.pc = [x for x in s.pc if x[0] == "b"] + [("f", g_) for _, g_ in reqs] + [("f", e) for e in pre.facts()[:npre]]
            eng.oblige(s3, g, "ensures: " + lab, "postcondition", b["line"],
                       extra=c2.extra + [done[u] for u in o.get("use", ())] + list(o.get("lemmas", ())))
            done[lab] = g
    eng.covers.append((con.short + ": reaches a return", None if not res else [list(s.facts()) for s, _ in res]))
    return len(eng.obls) - n0


def default_args(eng, st, b, con):
    body = b["body"]
    names = {}
    for d in body["debug"]:
        if isinstance(d["v"], list) and len(d["v"]) == 1 and 1 <= d["v"][0] <= body["argc"]:
            names.setdefault(d["v"][0], d["n"])
    return [eng.arb(body["locals"][i + 1], con.subst, names.get(i + 1, "arg%d" % i), st) for i in range(body["argc"])]


def init_heap(eng, st):
    """lock heap: content of the RwLock<Weights> of an event, by lock identity"""
    wt = eng.crate.adts.get("event::Weights")
    sh = eng.shape({"k": "adt", "p": "event::Weights", "a": []}) if wt else ("z", R)
    h = fresh_of(("seq", sh), "heap")
    st.store[HEAP] = SeqV(sh, h.lv, 0, h.n)
    st.store[HELD] = SetV(z3.K(I, z3.BoolVal(False)), ("z", I))
    # every lock's content is a value of its type
    i = fresh("i", I)
    e = sel(st.store[HEAP], i)
    if isinstance(e, Agg) and isinstance(e.f[0], SeqV):
        n = z3.Select(st.store[HEAP].lv[0], i)
        st.fact(z3.ForAll([i], z3.And(n >= 0, n < 2 ** 60), patterns=[n]))


# ---------------------------------------------------------------- helpers used by models
def _uless(self, sort):
    return self.cache.setdefault(("uless", sort.name()), z3.Function("less_" + sort.name(), sort, sort, B))


def _derived_ord(self, adt):
    """Ord::cmp of a local type is the derived one: marked automatically derived by the exporter"""
    for b in self.crate.bodies.values():
        if b.get("name") in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and b.get("implself") and b["implself"].get("p") == adt:
            if not b.get("derived"):
                return False
    return True


def _derived_ord_impl(self, info):
    r = info.c.get("r") or {}
    b = self.crate.bodies.get(r.get("key"))
    return bool(b and b.get("derived"))


def _find_from(self, tf, tt):
    import mir
    for b in self.crate.bodies.values():
        if b.get("trait") == "std::convert::From" and b.get("name") == "from" and b.get("implself"):
            if b["implself"].get("p", mir.tyname(b["implself"])) == tt.get("p", mir.tyname(tt)):
                ta = b.get("traitargs") or []
                x = ta[-1] if ta else None
                if x is not None and strip(mir.tyname(x)) == strip(mir.tyname(tf)):
                    return b
    return None


def strip(s):
    return re.sub(r",std::alloc::Global", "", s)


def _vidx(self, v):
    return v.d


def _lockrank(self, i):
    return z3.Function("lockrank", I, I)(zi(i))


def _nw(self, i):
    return z3.Function("nweights", I, I)(zi(i))


def _freshlock(self, st, i):
    return [z3.Function("lockgen", I, I)(i) == V._n[0]]


Engine.uless, Engine.derived_ord, Engine.derived_ord_impl, Engine.derived_clone = _uless, _derived_ord, _derived_ord_impl, _derived_ord_impl
Engine.find_from, Engine.vidx, Engine.lockrank, Engine.nw, Engine.freshlock = _find_from, _vidx, _lockrank, _nw, _freshlock
