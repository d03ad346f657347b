"""Symbolic values.

Machine values are represented as follows (see DESIGN.md, "engine"):
  integers, chars  z3 Int (range facts are added where values are created)
  bool             z3 Bool
  f64, N64         z3 Real (floating point treated as exact real arithmetic)
  type parameters  an uninterpreted sort per parameter
  struct, tuple, small array, closure captures   Agg
  enum             EnumV: variant index plus payloads
  Vec, slice, boxed slice                        SeqV: struct-of-arrays over absolute indices
  &T               the value itself (a shared borrow cannot change; RwLock content lives in the lock heap)
  &mut T, Box<T>   Ptr(root, path) / the value itself
  RwLock<T>, its guards                          the lock's identity (Int)
"""
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


_n = [0]


def fresh(base, sort):
    _n[0] += 1
    return z3.Const("%s!%d" % (base, _n[0]), sort)


def freshfn(base, *sorts):
    _n[0] += 1
    return z3.Function("%s!%d" % (base, _n[0]), *sorts)


class Agg:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, list(f)

    def __repr__(self):
        return "Agg<%s>%s" % (self.ty, self.f)


class EnumV:
    """d: python int (known variant) or z3 Int; pay: variant -> Agg or None"""
    __slots__ = ("ty", "d", "pay")

    def __init__(self, ty, d, pay):
        self.ty, self.d, self.pay = ty, d, pay

    def __repr__(self):
        return "Enum<%s>#%s%s" % (self.ty, self.d, self.pay)


class SeqV:
    """Sequence of values of shape `sh`; element k lives at absolute index off+k of each leaf array."""
    __slots__ = ("sh", "lv", "off", "n")

    def __init__(self, sh, lv, off, n):
        self.sh, self.lv, self.off, self.n = sh, lv, off, n

    def __repr__(self):
        return "Seq(%s,%s,%s)" % (self.lv, self.off, self.n)


class Ptr:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.root, self.path)


class Guard:
    """write guard: lock id; `kind` 'w' or 'r' (a read guard carries its snapshot)"""
    __slots__ = ("id", "val")

    def __init__(self, id, val=None):
        self.id, self.val = id, val

    def __repr__(self):
        return "Guard(%s)" % self.id


class Clo:
    __slots__ = ("key", "up", "subst")

    def __init__(self, key, up, subst):
        self.key, self.up, self.subst = key, list(up), subst

    def __repr__(self):
        return "Clo(%s,%s)" % (self.key, self.up)


class Fn:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class PyFn:
    """engine-level function value: call(eng, st, args) -> [(st, v)]"""
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SetV:
    """HashSet: characteristic array"""
    __slots__ = ("arr", "sh")

    def __init__(self, arr, sh):
        self.arr, self.sh = arr, sh


class MapV:
    """HashMap / BTreeMap: domain and leaf arrays over the leaves of the key (nested arrays), number of entries"""
    __slots__ = ("dom", "lv", "ksh", "sh", "kind", "n")

    def __init__(self, dom, lv, ksh, sh, kind, n):
        self.dom, self.lv, self.ksh, self.sh, self.kind, self.n = dom, lv, ksh, sh, kind, n

    def get(self, ks):
        return decode(self.sh, [msel(a, ks) for a in self.lv])

    def has(self, ks):
        return msel(self.dom, ks)

    def with_entry(self, ks, ls):
        return MapV(mstore(self.dom, ks, z3.BoolVal(True)), [mstore(q, ks, l) for q, l in zip(self.lv, ls)], self.ksh, self.sh, self.kind,
                    z3.If(self.has(ks), zi(self.n), zi(self.n) + 1))

    def without(self, ks):
        return MapV(mstore(self.dom, ks, z3.BoolVal(False)), self.lv, self.ksh, self.sh, self.kind, z3.If(self.has(ks), zi(self.n) - 1, zi(self.n)))


def marr(ksh, s):
    """array over the leaves of a key"""
    for k in reversed(sorts(ksh)):
        s = z3.ArraySort(k, s)
    return s


def msel(a, ks):
    for k in ks:
        a = z3.Select(a, k)
    return a


def mstore(a, ks, v):
    if len(ks) == 1:
        return z3.Store(a, ks[0], v)
    return z3.Store(a, ks[0], mstore(z3.Select(a, ks[0]), ks[1:], v))


def mconst(ksh, v):
    for k in reversed(sorts(ksh)):
        v = z3.K(k, v)
    return v


def empty_map(ksh, sh, kind):
    return MapV(mconst(ksh, z3.BoolVal(False)), [fresh("map", marr(ksh, s)) for s in sorts(sh)], ksh, sh, kind, z3.IntVal(0))


class It:
    """Iterator: indexable source, position, stages."""
    __slots__ = ("n", "at", "pos", "stages", "meta")

    def __init__(self, n, at, pos=0, stages=(), meta=None):
        self.n, self.at, self.pos, self.stages, self.meta = n, at, pos, tuple(stages), meta or {}

    def with_(self, **kw):
        d = dict(n=self.n, at=self.at, pos=self.pos, stages=self.stages, meta=self.meta)
        d.update(kw)
        return It(**d)


class Moved:
    def __repr__(self):
        return "MOVED"


MOVED = Moved()


class Opaque:
    """Value of a type the engine does not look into."""
    __slots__ = ("ty", "c", "info")

    def __init__(self, ty, c=None, info=None):
        self.ty, self.info = ty, info or {}
        self.c = c if c is not None else fresh("opq", OPQ)

    def __repr__(self):
        return "Opaque<%s>" % self.ty


OPQ = z3.DeclareSort("Opaque")
UNIT = Agg("()", [])


def isz(v):
    return isinstance(v, z3.ExprRef)


def zi(v):
    return z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v


def zb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


# ---------------------------------------------------------------- shapes
# ('z', sort) | ('agg', ty, [shapes]) | ('enum', ty, {variant: shape|None}) | ('seq', shape)
# | ('guard',) | ('opq', ty) | ('set', ksh) | ('map', ksh, sh, kind)

def shape_of(v):
    if isz(v):
        return ("z", v.sort())
    if isinstance(v, bool):
        return ("z", B)
    if isinstance(v, int):
        return ("z", I)
    if isinstance(v, Agg):
        return ("agg", v.ty, [shape_of(x) for x in v.f])
    if isinstance(v, EnumV):
        return ("enum", v.ty, {k: (None if p is None else shape_of(p)) for k, p in v.pay.items()})
    if isinstance(v, SeqV):
        return ("seq", v.sh)
    if isinstance(v, Guard):
        return ("guard",)
    if isinstance(v, Opaque):
        return ("opq", v.ty)
    if isinstance(v, SetV):
        return ("set", v.sh)
    if isinstance(v, MapV):
        return ("map", v.ksh, v.sh, v.kind)
    raise Unsupported("shape of %s" % type(v).__name__)


def sorts(sh):
    """leaf sorts"""
    k = sh[0]
    if k == "z":
        return [sh[1]]
    if k == "agg":
        return [s for x in sh[2] for s in sorts(x)]
    if k == "enum":
        r = [I]
        for v in sorted(sh[2]):
            if sh[2][v] is not None:
                r += sorts(sh[2][v])
        return r
    if k == "seq":
        return [I] + [z3.ArraySort(I, s) for s in sorts(sh[1])]
    if k == "guard":
        return [I]
    if k == "opq":
        return [OPQ]
    if k == "set":
        return [z3.ArraySort(ksort(sh[1]), B)]
    if k == "map":
        return [marr(sh[1], B)] + [marr(sh[1], s) for s in sorts(sh[2])] + [I]
    raise Unsupported("sorts of " + k)


def ksort(sh):
    s = sorts(sh)
    if len(s) != 1:
        raise Unsupported("composite key")
    return s[0]


def decode(sh, lv):
    """value from leaf expressions (consumes from list lv)"""
    k = sh[0]
    if k == "z":
        return lv.pop(0)
    if k == "agg":
        return Agg(sh[1], [decode(x, lv) for x in sh[2]])
    if k == "enum":
        d = lv.pop(0)
        pay = {}
        for v in sorted(sh[2]):
            pay[v] = None if sh[2][v] is None else decode(sh[2][v], lv)
        return EnumV(sh[1], d, pay)
    if k == "seq":
        n = lv.pop(0)
        ls = [lv.pop(0) for _ in sorts(sh[1])]
        return SeqV(sh[1], ls, 0, n)
    if k == "guard":
        return Guard(lv.pop(0))
    if k == "opq":
        return Opaque(sh[1], lv.pop(0))
    if k == "set":
        return SetV(lv.pop(0), sh[1])
    if k == "map":
        dom = lv.pop(0)
        ls = [lv.pop(0) for _ in sorts(sh[2])]
        return MapV(dom, ls, sh[1], sh[2], sh[3], lv.pop(0))
    raise Unsupported("decode " + k)


def default_leaf(s):
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    return fresh("dflt", s)


def encode(sh, v, facts):
    """leaf expressions of v; `facts` collects definitions of normalised arrays"""
    k = sh[0]
    if k == "z":
        return [z3.BoolVal(v) if isinstance(v, bool) else zi(v)]
    if k == "agg":
        return [l for x, y in zip(sh[2], v.f) for l in encode(x, y, facts)]
    if k == "enum":
        r = [zi(v.d)]
        for var in sorted(sh[2]):
            s = sh[2][var]
            if s is None:
                continue
            p = v.pay.get(var)
            if p is None:
                r += [default_leaf(x) for x in sorts(s)]
            else:
                r += encode(s, p, facts)
        return r
    if k == "seq":
        v = normalise(v, facts)
        if len(v.lv) != len(sorts(sh[1])):
            raise Unsupported("sequence shape mismatch")
        return [zi(v.n)] + list(v.lv)
    if k == "guard":
        return [zi(v.id)]
    if k == "opq":
        return [v.c]
    if k == "set":
        return [v.arr]
    if k == "map":
        return [v.dom] + list(v.lv) + [zi(v.n)]
    raise Unsupported("encode " + k)


def is0(x):
    return (isinstance(x, int) and x == 0) or (z3.is_int_value(x) and x.as_long() == 0)


def normalise(v, facts):
    """same sequence with offset 0"""
    if is0(v.off):
        return v
    out = []
    for a in v.lv:
        b = fresh("norm", a.sort())
        i = fresh("i", I)
        facts.append(z3.ForAll([i], z3.Select(b, i) == z3.Select(a, zi(v.off) + i), patterns=[z3.Select(b, i)]))
        # reverse direction: absolute index j of a
        facts.append(z3.ForAll([i], z3.Select(b, i - zi(v.off)) == z3.Select(a, i), patterns=[z3.Select(a, i)]))
        out.append(b)
    return SeqV(v.sh, out, 0, v.n)


def fresh_of(sh, base="h", cons=None):
    """unconstrained value of a shape; type-range facts appended to cons"""
    return decode(sh, [fresh(base, s) for s in sorts(sh)])


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if is0(a):
        return b
    if is0(b):
        return a
    return zi(a) + zi(b)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if is0(b):
        return a
    return zi(a) - zi(b)


def sel(seq, k):
    """element k of a sequence (k relative)"""
    i = zi(add(seq.off, k))
    return decode(seq.sh, [z3.Select(a, i) for a in seq.lv])


def upd(seq, k, v, facts):
    i = zi(add(seq.off, k))
    ls = encode(seq.sh, v, facts)
    return SeqV(seq.sh, [z3.Store(a, i, l) for a, l in zip(seq.lv, ls)], seq.off, seq.n)


def ite(c, a, b):
    """merge two values under condition c"""
    if a is b:
        return a
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b and type(a) == type(b):
        return a
    if isz(a) or isz(b) or isinstance(a, (int, bool)):
        za = zb(a) if isinstance(a, bool) else zi(a)
        zb_ = zb(b) if isinstance(b, bool) else zi(b)
        if za.eq(zb_):
            return a
        return z3.If(c, za, zb_)
    if isinstance(a, Agg):
        return Agg(a.ty, [ite(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, EnumV):
        pay = {}
        for k in set(a.pay) | set(b.pay):
            x, y = a.pay.get(k), b.pay.get(k)
            pay[k] = y if x is None else x if y is None else ite(c, x, y)
        return EnumV(a.ty, ite(c, a.d, b.d), pay)
    if isinstance(a, SeqV):
        return SeqV(a.sh, [ite(c, x, y) for x, y in zip(a.lv, b.lv)], ite(c, a.off, b.off), ite(c, a.n, b.n))
    if isinstance(a, Guard):
        return Guard(ite(c, a.id, b.id))
    if isinstance(a, Opaque):
        return Opaque(a.ty, ite(c, a.c, b.c))
    if isinstance(a, SetV):
        return SetV(ite(c, a.arr, b.arr), a.sh)
    if isinstance(a, MapV):
        return MapV(ite(c, a.dom, b.dom), [ite(c, x, y) for x, y in zip(a.lv, b.lv)], a.ksh, a.sh, a.kind, ite(c, zi(a.n), zi(b.n)))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path):
        return Ptr(a.root, [pe_ite(c, x, y) for x, y in zip(a.path, b.path)])
    if a is MOVED or b is MOVED or a is None or b is None:
        return MOVED
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def pe_ite(c, x, y):
    if x[0] != y[0]:
        raise Unsupported("merge of different pointers")
    if x[0] == "i":
        return ("i", ite(c, x[1], y[1]))
    if x == y:
        return x
    raise Unsupported("merge of different pointers")


def eqv(a, b):
    """structural equality of two values as a z3 Bool (sequences: length and pointwise)"""
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)) or isz(a) or isz(b):
        return (zb(a) if isinstance(a, bool) else zi(a)) == (zb(b) if isinstance(b, bool) else zi(b))
    if isinstance(a, Agg):
        return z3.And([eqv(x, y) for x, y in zip(a.f, b.f)] or [z3.BoolVal(True)])
    if isinstance(a, EnumV):
        cs = [zi(a.d) == zi(b.d)]
        for k in set(a.pay) & set(b.pay):
            if a.pay[k] is not None and b.pay[k] is not None:
                cs.append(z3.Implies(zi(a.d) == k, eqv(a.pay[k], b.pay[k])))
        return z3.And(cs)
    if isinstance(a, SeqV):
        k = fresh("k", I)
        body = z3.Implies(z3.And(0 <= k, k < zi(a.n)), eqv(sel(a, k), sel(b, k)))
        return z3.And(zi(a.n) == zi(b.n), z3.ForAll([k], body))
    if isinstance(a, Guard):
        return zi(a.id) == zi(b.id)
    if isinstance(a, Opaque):
        return a.c == b.c
    if isinstance(a, SetV):
        return a.arr == b.arr
    if isinstance(a, MapV):
        ks = [fresh("k", s) for s in sorts(a.ksh)]
        return z3.And(zi(a.n) == zi(b.n), z3.ForAll(ks, z3.And(a.has(ks) == b.has(ks), z3.Implies(a.has(ks), eqv(a.get(ks), b.get(ks))))))
    raise Unsupported("equality of %s" % type(a).__name__)
