"""Assumed contracts of functions outside the crate (std, rayon, noisy_float, parking_lot, ...)."""
import z3
from values import *
import values as V
from engine import *

MODELS = {}
DOC = {}


def m(*names, doc=None):
    def deco(f):
        for n in names:
            MODELS[n] = f
            DOC[n] = doc or f.__doc__ or ""
        return f
    return deco


def one(st, v):
    return [(st, v)]


def ld(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.load(st, v)
    return v


def some(v):
    return EnumV("std::option::Option", 1, {1: Agg("std::option::Option", [v])})


def none():
    return EnumV("std::option::Option", 0, {0: Agg("std::option::Option", [])})


def ok(v):
    return EnumV("std::result::Result", 0, {0: Agg("std::result::Result", [v])})


def err(v):
    return EnumV("std::result::Result", 1, {1: Agg("std::result::Result", [v])})


def is_(v, k):
    """condition: enum value v is variant k"""
    return v.d == k if isinstance(v.d, int) else v.d == k


def fork(eng, st, c):
    """[(state, truth)] for the feasible outcomes of a condition"""
    if isinstance(c, bool):
        return [(st, c)]
    c = z3.simplify(c)
    if z3.is_true(c):
        return [(st, True)]
    if z3.is_false(c):
        return [(st, False)]
    r = []
    for x, b in ((c, True), (z3.simplify(z3.Not(c)), False)):
        if eng.feasible(st, x):
            s = st.copy()
            s.branch(x)
            r.append((s, b))
    return r


def fork_enum(eng, st, v):
    """[(state, variant)]"""
    if isinstance(v.d, int):
        return [(st, v.d)]
    r = []
    for k in sorted(v.pay):
        if eng.feasible(st, v.d == k):
            s = st.copy()
            s.branch(v.d == k)
            r.append((s, k))
    return r


# ---------------------------------------------------------------- ordering

def lt(eng, st, a, b):
    a, b = ld(eng, st, a), ld(eng, st, b)
    if isinstance(a, (int, bool)) or isz(a) or isz(b):
        if isinstance(a, bool) or isz(a) and a.sort() == B:
            return z3.And(z3.Not(zb(a)), zb(b))
        if isz(a) and a.sort() not in (I, R):
            return eng.uless(a.sort())(a, b)
        return zi(a) < zi(b) if not (isinstance(a, int) and isinstance(b, int)) else a < b
    if isinstance(a, Agg):
        chk_derived(eng, a)
        if a.ty == "std::cmp::Reverse":
            return lt(eng, st, b.f[0], a.f[0])
        r = z3.BoolVal(False)
        for x, y in reversed(list(zip(a.f, b.f))):
            l = lt(eng, st, x, y)
            r = z3.Or(zb(l), z3.And(eq(eng, st, x, y), r))
        return r
    if isinstance(a, EnumV):
        da, db = zi(a.d), zi(b.d)
        r = da < db
        for k in set(a.pay) & set(b.pay):
            if a.pay[k] is not None and b.pay[k] is not None and a.pay[k].f:
                r = z3.Or(r, z3.And(da == db, da == k, lt(eng, st, a.pay[k], b.pay[k])))
        return r
    raise Unsupported("ordering of %s" % type(a).__name__)


def eq(eng, st, a, b):
    return eqv(ld(eng, st, a), ld(eng, st, b))


def chk_derived(eng, a):
    """only derived orderings may be treated structurally"""
    if a.ty in ("tuple", "array", "std::option::Option", "std::cmp::Reverse"):
        return
    d = eng.crate.adts.get(a.ty)
    if d and d.get("local") and not eng.derived_ord(a.ty):
        raise Unsupported("hand-written ordering of " + a.ty)


def ordering(eng, st, a, b):
    a, b = ld(eng, st, a), ld(eng, st, b)
    l, e = zb(lt(eng, st, a, b)), eqv(a, b)
    d = z3.If(l, z3.IntVal(0), z3.If(e, z3.IntVal(1), z3.IntVal(2)))
    O = "std::cmp::Ordering"
    return EnumV(O, z3.simplify(d), {0: Agg(O, []), 1: Agg(O, []), 2: Agg(O, [])})


def local_impl(info):
    r = info.c.get("r")
    return bool(r and r.get("local"))


@m("std::cmp::Ord::cmp", doc="total order of integers, N64 (reals), tuples, arrays and derived types (lexicographic)")
def _cmp(eng, st, a, info):
    if local_impl(info) and not eng.derived_ord_impl(info):
        return NotImplemented
    return one(st, ordering(eng, st, a[0], a[1]))


@m("std::cmp::PartialOrd::partial_cmp", doc="as Ord::cmp, wrapped in Some (no NaN)")
def _pcmp(eng, st, a, info):
    if local_impl(info) and not eng.derived_ord_impl(info):
        return NotImplemented
    return one(st, some(ordering(eng, st, a[0], a[1])))


def _rel(name, f):
    def g(eng, st, a, info):
        x, y = ld(eng, st, a[0]), ld(eng, st, a[1])
        if "log::Level" in str(getattr(x, "ty", "")) or "log::Level" in str(getattr(y, "ty", "")) or any("log::Level" in eng.tyd(t) for t in info.targs):
            return one(st, False)  # logging is off: log statements are dropped (their arguments have no side effects)
        if local_impl(info) and not eng.derived_ord_impl(info):
            return NotImplemented
        return one(st, f(eng, st, x, y))
    m("std::cmp::PartialOrd::" + name, doc="order of reals/integers/derived types")(g)


_rel("lt", lambda e, s, x, y: lt(e, s, x, y))
_rel("gt", lambda e, s, x, y: lt(e, s, y, x))
_rel("le", lambda e, s, x, y: z3.Not(zb(lt(e, s, y, x))))
_rel("ge", lambda e, s, x, y: z3.Not(zb(lt(e, s, x, y))))


@m("std::cmp::PartialEq::eq", doc="structural equality")
def _eq(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    return one(st, eq(eng, st, a[0], a[1]))


@m("std::cmp::PartialEq::ne", doc="structural inequality")
def _ne(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    return one(st, z3.Not(eq(eng, st, a[0], a[1])))


@m("std::cmp::min", doc="first argument unless the second is smaller")
def _min(eng, st, a, info):
    return one(st, ite(zb(lt(eng, st, a[1], a[0])), a[1], a[0]))


@m("std::cmp::max", doc="second argument unless it is smaller")
def _max(eng, st, a, info):
    return one(st, ite(zb(lt(eng, st, a[1], a[0])), a[0], a[1]))


@m("std::cmp::Ord::min", doc="as std::cmp::min")
def _omin(eng, st, a, info):
    return _min(eng, st, a, info)


@m("std::cmp::Ord::max", doc="as std::cmp::max")
def _omax(eng, st, a, info):
    return _max(eng, st, a, info)


@m("std::cmp::Ordering::reverse", doc="reversed ordering")
def _orev(eng, st, a, info):
    v = a[0]
    d = 2 - v.d
    return one(st, EnumV(v.ty, z3.simplify(d) if isz(d) else d, {0: Agg(v.ty, []), 1: Agg(v.ty, []), 2: Agg(v.ty, [])}))


# ---------------------------------------------------------------- numbers

@m("noisy_float::types::n64", "noisy_float::NoisyFloat::<F, C>::new", "noisy_float::NoisyFloat::<F, C>::raw",
   "noisy_float::types::r64", doc="N64 is a real number (NaN excluded by its type)")
def _n64(eng, st, a, info):
    return one(st, ld(eng, st, a[0]))


def num(v):
    return z3.RealVal(v) if isinstance(v, int) else v


def _arith(op, trait, assign):
    def g(eng, st, a, info):
        if local_impl(info):
            return NotImplemented
        x, y = ld(eng, st, a[0]), ld(eng, st, a[1])
        if not (isz(x) and x.sort() == R or isz(y) and y.sort() == R):
            if isinstance(x, Agg) or isinstance(y, Agg) or isinstance(x, (SeqV, Opaque)):
                return NotImplemented
            if isz(x) and x.sort() == I or isinstance(x, int):
                t = info.targs[0]
                while t["k"] == "ref":
                    t = t["t"]
                if t["k"] == "int":
                    v = eng.arith(op, zi(x), zi(y))
                    lo, hi = INT_RANGE[t["n"]]
                    eng.oblige(st, z3.And(v >= lo, v <= hi), "no overflow", "panic")
                    if assign:
                        eng.assign(st, a[0], v)
                        return one(st, UNIT)
                    return one(st, v)
            return NotImplemented
        x, y = num(x), num(y)
        if op == "Div":
            eng.oblige(st, y != 0, "division by zero in " + str(eng.curkey), "panic")
            st.fact(y != 0)
        v = eng.arith(op, x, y)
        if assign:
            eng.assign(st, a[0], v)
            return one(st, UNIT)
        return one(st, v)
    m("std::ops::%s::%s" % trait, doc="exact real arithmetic")(g)


for _o, _t in (("Add", ("Add", "add")), ("Sub", ("Sub", "sub")), ("Mul", ("Mul", "mul")), ("Div", ("Div", "div"))):
    _arith(_o, _t, False)
    _arith(_o, (_t[0] + "Assign", _t[1] + "_assign"), True)


@m("std::ops::Neg::neg", doc="exact negation")
def _neg(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    return one(st, -ld(eng, st, a[0]))


@m("noisy_float::prelude::Float::abs", "core::f64::<impl f64>::abs", "std::f64::<impl f64>::abs", doc="absolute value")
def _abs(eng, st, a, info):
    x = num(ld(eng, st, a[0]))
    st.fact(abs_def())
    return one(st, ABS(x))


SQRT = z3.Function("sqrt", R, R)
ABS = z3.Function("absv", R, R)


def abs_def():
    x = z3.Real("x!abs")
    return z3.ForAll([x], ABS(x) == z3.If(x >= 0, x, -x), patterns=[ABS(x)])


@m("noisy_float::prelude::Float::sqrt", "std::f64::<impl f64>::sqrt", doc="non-negative square root of a non-negative number")
def _sqrt(eng, st, a, info):
    x = num(ld(eng, st, a[0]))
    eng.oblige(st, x >= 0, "square root of a negative number in " + str(eng.curkey), "panic")
    r = SQRT(x)
    st.fact(r >= 0, r * r == x)
    return one(st, r)


@m("noisy_float::prelude::Float::floor", "std::f64::<impl f64>::floor", doc="largest integer not above")
def _floor(eng, st, a, info):
    return one(st, z3.ToReal(z3.ToInt(num(ld(eng, st, a[0])))))


@m("std::f64::<impl f64>::fract", "noisy_float::prelude::Float::fract", doc="fractional part")
def _fract(eng, st, a, info):
    x = num(ld(eng, st, a[0]))
    st.fact()
    return one(st, z3.If(x >= 0, x - z3.ToReal(z3.ToInt(x)), x + z3.ToReal(z3.ToInt(-x))))


POW2 = z3.Function("pow2", I, I)
LOG2 = z3.Function("log2", I, I)


@m("core::num::<impl usize>::is_power_of_two", "core::num::<impl u32>::is_power_of_two", doc="x = 2^k for some k >= 0")
def _ispow2(eng, st, a, info):
    x = zi(a[0])
    return one(st, z3.And(LOG2(x) >= 0, POW2(LOG2(x)) == x))


@m("core::num::<impl u32>::pow", "core::num::<impl usize>::pow", "core::num::<impl u64>::pow", doc="power of two (only base 2)")
def _pow(eng, st, a, info):
    if isinstance(a[0], int) and a[0] == 2:
        return one(st, POW2(zi(a[1])))
    raise Unsupported("pow")


@m("core::num::<impl i32>::abs", "core::num::<impl i64>::abs", doc="absolute value")
def _iabs(eng, st, a, info):
    x = zi(a[0])
    return one(st, z3.If(x >= 0, x, -x))


@m("core::num::<impl usize>::saturating_sub", "core::num::<impl u64>::saturating_sub", "core::num::<impl u32>::saturating_sub", doc="max(a-b, 0)")
def _ssub(eng, st, a, info):
    x, y = zi(a[0]), zi(a[1])
    return one(st, z3.If(x >= y, x - y, z3.IntVal(0)))


@m("core::num::<impl usize>::wrapping_sub", doc="wrapping subtraction")
def _wsub(eng, st, a, info):
    return one(st, (zi(a[0]) - zi(a[1])) % 2 ** 64)


# ---------------------------------------------------------------- conversions, references, memory

@m("std::convert::Into::into", "std::convert::From::from", doc="numeric conversions between f64 and N64; identity")
def _into(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    rp = (info.c.get("r") or {}).get("p", "")
    ts = info.targs
    v = a[0]
    if isz(v) or isinstance(v, (int, bool)):
        if len(ts) == 2:
            def unref(t):
                return t
            if eng.is_real(ts[0]) and eng.is_real(ts[1]):
                return one(st, v)
            if ts[0]["k"] == "int" and eng.is_real(ts[1]) or eng.is_real(ts[0]) and ts[1]["k"] == "int":
                x = zi(v)
                return one(st, z3.ToReal(x) if x.sort() == I else x)
            if ts[0]["k"] == "int" and ts[1]["k"] == "int":
                return one(st, v)
    if info.c["p"].endswith("into") and len(ts) == 2:
        # a local From impl behind the blanket Into
        im = eng.find_from(ts[0], ts[1])
        if im:
            if im["path"] in eng.contracts and eng.contracts[im["path"]].active:
                return eng.call_contract(st, eng.contracts[im["path"]], a, info)
            return eng.inline(st, im, a, {})
    if isinstance(v, (SeqV, Agg)) and ("vec" in rp.lower() or "Box" in rp or "VecDeque" in rp):
        return one(st, eng.agg_seq(st, v) if isinstance(v, Agg) else v)
    if len(ts) == 2 and eng.tyd(ts[0]) == eng.tyd(ts[1]):
        return one(st, v)
    return NotImplemented


def ident(eng, st, a, info):
    return one(st, a[0])


for _n in ("std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::hint::must_use",
           "std::vec::Vec::<T, A>::into_boxed_slice", "std::slice::<impl [T]>::into_vec",
           "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T, A>::as_slice",
           "std::iter::Iterator::by_ref"):
    m(_n, doc="representation of the same sequence / reference")(ident)


@m("std::ops::Deref::deref", doc="the referenced value (lock guards: the locked value)")
def _deref(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    v = ld(eng, st, a[0])
    if isinstance(v, Guard):
        if v.val is not None:
            return one(st, v.val)
        return one(st, eng.load(st, Ptr(HEAP, [("i", v.id)])))
    return one(st, v)


@m("std::ops::DerefMut::deref_mut", doc="the referenced place (lock guards: the locked value)")
def _derefm(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    p = a[0]
    v = eng.load(st, p)
    if isinstance(v, Ptr):
        p, v = v, eng.load(st, v)
    if isinstance(v, Guard):
        if v.val is not None:
            raise Unsupported("write through a read guard")
        return one(st, Ptr(HEAP, [("i", v.id)]))
    return one(st, p)


def new_lock(eng, st):
    """a lock different from all existing ones, not held, with unspecified content"""
    i = fresh("lock", I)
    st.fact(*eng.freshlock(st, i), z3.Not(z3.Select(st.store[HELD].arr, i)))
    return Guard(i)


@m("std::mem::take", doc="moves the value out, leaves Default")
def _take(eng, st, a, info):
    v = eng.load(st, a[0])
    d = new_lock(eng, st) if isinstance(v, Guard) else default_of(eng, st, v, info)
    eng.assign(st, a[0], d)
    return one(st, v)


@m("std::mem::replace", doc="moves the value out, leaves the new one")
def _replace(eng, st, a, info):
    v = eng.load(st, a[0])
    eng.assign(st, a[0], a[1])
    return one(st, v)


@m("std::mem::swap", doc="exchanges two places")
def _swap(eng, st, a, info):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    eng.assign(st, a[0], y)
    eng.assign(st, a[1], x)
    return one(st, UNIT)


@m("std::mem::drop", doc="drops")
def _drop(eng, st, a, info):
    eng.drop(st, a[0])
    return one(st, UNIT)


def default_of(eng, st, v, info=None, ty=None):
    if isz(v):
        if v.sort() == I:
            return 0
        if v.sort() == R:
            return z3.RealVal(0)
        if v.sort() == B:
            return False
        return fresh("default", v.sort())
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return 0
    if isinstance(v, SeqV):
        return SeqV(v.sh, [fresh("empty", a.sort()) for a in v.lv], 0, 0)
    if isinstance(v, Agg):
        return Agg(v.ty, [default_of(eng, st, x) for x in v.f])
    if isinstance(v, EnumV) and v.ty == "std::option::Option":
        return none()
    if isinstance(v, SetV):
        return SetV(z3.K(v.arr.sort().domain(), z3.BoolVal(False)), v.sh)
    if isinstance(v, MapV):
        return empty_map(v.ksh, v.sh, v.kind)
    if isinstance(v, Opaque):
        return Opaque(v.ty)
    raise Unsupported("default of %s" % type(v).__name__)


@m("std::default::Default::default", doc="zero, empty, None, field-wise default")
def _default(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    ts = info.targs
    if not ts:
        return NotImplemented
    im = eng.find_impl(info.fr, info.c, a)
    if im:
        return eng.inline(st, im[0], a, im[1])
    return one(st, default_ty(eng, st, ts[0], info))


def default_ty(eng, st, t, info):
    if t["k"] == "ref":
        t = t["t"]
    sh = eng.shape(t, info.fr.subst)
    return default_sh(eng, st, sh)


def default_sh(eng, st, sh):
    if sh[0] == "z":
        return default_of(eng, st, fresh("d", sh[1]))
    if sh[0] == "agg":
        if sh[1] not in ("tuple", "array", "std::marker::PhantomData", "()"):
            d = eng.crate.adts.get(sh[1])
            if d and d.get("local"):
                raise Unsupported("default of local type inside a container")
        return Agg(sh[1], [default_sh(eng, st, x) for x in sh[2]])
    if sh[0] == "enum" and sh[1] == "std::option::Option":
        return none()
    if sh[0] == "seq":
        return SeqV(sh[1], [fresh("empty", z3.ArraySort(I, s)) for s in sorts(sh[1])], 0, 0)
    if sh[0] in ("set", "map"):
        return default_of(eng, st, fresh_of(sh, "d"))
    if sh[0] == "opq":
        return Opaque(sh[1])
    raise Unsupported("default of " + str(sh[0]))


@m("std::clone::Clone::clone", "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::slice::<impl [T]>::to_vec",
   "std::borrow::ToOwned::to_owned", doc="an equal value")
def _clone(eng, st, a, info):
    if local_impl(info) and not eng.derived_clone(info):
        return NotImplemented
    return one(st, ld(eng, st, a[0]))


# ---------------------------------------------------------------- Option / Result / Try

@m("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect",
   doc="the payload; panics otherwise")
def _unwrap(eng, st, a, info):
    v = a[0]
    if isinstance(v, Opaque):
        raise Unsupported("unwrap of opaque " + v.ty)
    good = 1 if v.ty == "std::option::Option" else 0
    if isinstance(v.d, int):
        if v.d != good:
            eng.oblige(st, z3.BoolVal(False), "unwrap cannot fail in " + str(eng.curkey), "panic")
            return []
    else:
        eng.oblige(st, v.d == good, "unwrap cannot fail in " + str(eng.curkey), "panic")
        st.fact(v.d == good)
    return one(st, v.pay[good].f[0])


@m("std::option::Option::<T>::unwrap_or", doc="payload or the given value")
def _unwrap_or(eng, st, a, info):
    v = a[0]
    if isinstance(v.d, int):
        return one(st, v.pay[1].f[0] if v.d == 1 else a[1])
    return one(st, ite(v.d == 1, v.pay[1].f[0], a[1]))


@m("std::option::Option::<T>::ok_or_else", "std::option::Option::<T>::ok_or", doc="payload, or the error; how the error looks is outside the properties")
def _ok_or(eng, st, a, info):
    v = ld(eng, st, a[0])
    return [(s, ok(v.pay[1].f[0]) if k == 1 else err(Opaque("error"))) for s, k in fork_enum(eng, st, v)]


@m("anyhow::Context::with_context", "anyhow::Context::context", doc="the same success; how the error looks is outside the properties")
def _context(eng, st, a, info):
    v = ld(eng, st, a[0])
    good = 1 if v.ty == "std::option::Option" else 0
    return [(s, ok(v.pay[good].f[0]) if k == good else err(Opaque("anyhow::Error"))) for s, k in fork_enum(eng, st, v)]


@m("std::option::Option::<T>::is_some", doc="is Some")
def _is_some(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v.d == 1)


@m("std::option::Option::<T>::is_none", doc="is None")
def _is_none(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v.d == 0)


@m("std::result::Result::<T, E>::is_ok", doc="is Ok")
def _is_ok(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v.d == 0)


@m("std::result::Result::<T, E>::is_err", doc="is Err")
def _is_err(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v.d == 1)


@m("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref", doc="reference to the payload")
def _as_ref(eng, st, a, info):
    return one(st, ld(eng, st, a[0]))


@m("std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref_mut", doc="mutable reference to the payload")
def _as_mut(eng, st, a, info):
    v = eng.load(st, a[0])
    res = []
    for s, k in fork_enum(eng, st, v):
        if k == 0:
            res.append((s, none()))
        else:
            p = eng.canon(eng.canon(a[0], ("d", 1)), ("f", 0))
            w = eng.load(s, p)
            res.append((s, some(w if isinstance(w, Ptr) else p)))
            # known variant from here on
            if not isinstance(v.d, int):
                eng.assign(s, a[0], EnumV(v.ty, 1, {1: v.pay[1]}))
    return res


@m("std::option::Option::<T>::take", doc="takes the payload, leaves None")
def _otake(eng, st, a, info):
    v = eng.load(st, a[0])
    eng.assign(st, a[0], none())
    return one(st, v)


@m("std::option::Option::<T>::map", doc="applies the function to the payload")
def _omap(eng, st, a, info):
    v = a[0]
    res = []
    for s, k in fork_enum(eng, st, v):
        if k == 0:
            res.append((s, none()))
        else:
            for s2, r in eng.apply(s, a[1], [v.pay[1].f[0]]):
                res.append((s2, some(r)))
    return res


@m("core::bool::<impl bool>::then_some", doc="the value if true")
def _then_some(eng, st, a, info):
    return [(s, some(a[1]) if b else none()) for s, b in fork(eng, st, zb(a[0]))]


@m("core::bool::<impl bool>::then", doc="the result of the function if true")
def _then(eng, st, a, info):
    res = []
    for s, b in fork(eng, st, zb(a[0])):
        res += [(t, some(v)) for t, v in eng.apply(s, a[1], [])] if b else [(s, none())]
    return res


@m("std::option::Option::<T>::unwrap_or_else", doc="payload or the result of the function")
def _uoe(eng, st, a, info):
    v = a[0]
    res = []
    for s, k in fork_enum(eng, st, v):
        if k == 1:
            res.append((s, v.pay[1].f[0]))
        else:
            res += eng.apply(s, a[1], [])
    return res


@m("std::result::Result::<T, E>::map_err", doc="maps the error")
def _map_err(eng, st, a, info):
    v = a[0]
    res = []
    for s, k in fork_enum(eng, st, v):
        if k == 0:
            res.append((s, ok(v.pay[0].f[0])))
        else:
            for s2, r in eng.apply(s, a[1], [v.pay[1].f[0]]):
                res.append((s2, err(r)))
    return res


@m("std::result::Result::<T, E>::map", doc="maps the value")
def _rmap(eng, st, a, info):
    v = a[0]
    res = []
    for s, k in fork_enum(eng, st, v):
        if k == 1:
            res.append((s, err(v.pay[1].f[0])))
        else:
            for s2, r in eng.apply(s, a[1], [v.pay[0].f[0]]):
                res.append((s2, ok(r)))
    return res


@m("std::ops::Try::branch", doc="the ? operator")
def _branch(eng, st, a, info):
    v = a[0]
    C = "std::ops::ControlFlow"
    res = []
    isopt = v.ty == "std::option::Option"
    good = 1 if isopt else 0
    for s, k in fork_enum(eng, st, v):
        if k == good:
            res.append((s, EnumV(C, 0, {0: Agg(C, [v.pay[good].f[0]])})))
        else:
            res.append((s, EnumV(C, 1, {1: Agg(C, [none() if isopt else err(v.pay[1].f[0])])})))
    return res


@m("std::ops::FromResidual::from_residual", doc="the ? operator: error converted with From")
def _residual(eng, st, a, info):
    v = a[0]
    if v.ty == "std::option::Option":
        return one(st, none())
    ts = info.targs
    e = v.pay[1].f[0]
    try:
        t_to = ts[0]["a"][1]
        t_from = ts[1]["a"][1]
        if eng.tyd(t_to) != eng.tyd(t_from):
            im = eng.find_from(t_from, t_to)
            if im:
                return [(s, err(r)) for s, r in eng.inline(st, im, [e], {})]
            e = Opaque(eng.tyd(t_to), None, {"from": e})
    except (KeyError, IndexError):
        pass
    return one(st, err(e))


# ---------------------------------------------------------------- Vec, slices

@m("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::collections::VecDeque::<T, A>::len", doc="number of elements")
def _len(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, eng.seqlen(v))


@m("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "std::collections::VecDeque::<T, A>::is_empty", doc="has no element")
def _is_empty(eng, st, a, info):
    n = eng.seqlen(ld(eng, st, a[0]))
    return one(st, n == 0)


def empty_seq(eng, st, ty, info):
    sh = eng.shape(ty, info.fr.subst)
    return SeqV(sh, [fresh("new", z3.ArraySort(I, s)) for s in sorts(sh)], 0, 0)


class LazySeq:
    pass


@m("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", doc="empty vector")
def _vnew(eng, st, a, info):
    if info.c["p"].endswith("with_capacity") and a:
        n = zi(a[0])
        eng.oblige(st, z3.And(n >= 0, n < 2 ** 63), "capacity in range", "panic")
    ts = info.targs
    try:
        return one(st, empty_seq(eng, st, ts[0], info))
    except Unsupported:
        return one(st, SeqV(None, [], 0, 0))


def shaped(eng, v, x):
    """sequence whose element shape is fixed by its first element"""
    if v.sh is None:
        sh = shape_of(x)
        return SeqV(sh, [fresh("new", z3.ArraySort(I, s)) for s in sorts(sh)], 0, 0)
    if v.sh[0] == "enum" or v.sh == ("opq", "?"):
        pass
    return v


@m("std::vec::Vec::<T, A>::push", "std::collections::VecDeque::<T, A>::push_back", doc="appends one element")
def _push(eng, st, a, info):
    v = eng.load(st, a[0])
    if isinstance(v, Agg):
        v = eng.agg_seq(st, v)
    v = shaped(eng, v, a[1])
    if isinstance(a[1], Guard) and a[1].val is None:
        raise Unsupported("vector of guards")
    facts = []
    w = upd(v, v.n, a[1], facts)
    st.fact(*facts)
    eng.assign(st, a[0], SeqV(w.sh, w.lv, w.off, add(v.n, 1)))
    return one(st, UNIT)


@m("std::vec::Vec::<T, A>::pop", doc="removes the last element")
def _pop(eng, st, a, info):
    v = eng.load(st, a[0])
    res = []
    for s, e in fork(eng, st, v.n == 0):
        if e:
            res.append((s, none()))
        else:
            x = sel(v, sub(v.n, 1))
            eng.assign(s, a[0], SeqV(v.sh, v.lv, v.off, sub(v.n, 1)))
            res.append((s, some(x)))
    return res


@m("std::collections::VecDeque::<T, A>::pop_front", doc="removes the first element")
def _popf(eng, st, a, info):
    v = eng.load(st, a[0])
    if isinstance(v, Agg):
        v = eng.agg_seq(st, v)
    res = []
    for s, e in fork(eng, st, v.n == 0):
        if e:
            res.append((s, none()))
        else:
            x = sel(v, 0)
            eng.assign(s, a[0], SeqV(v.sh, v.lv, add(v.off, 1), sub(v.n, 1)))
            res.append((s, some(x)))
    return res


@m("std::vec::Vec::<T, A>::clear", doc="removes all elements")
def _clear(eng, st, a, info):
    v = eng.load(st, a[0])
    eng.assign(st, a[0], SeqV(v.sh, v.lv, v.off, 0))
    return one(st, UNIT)


@m("std::vec::Vec::<T, A>::truncate", doc="keeps the first n elements")
def _trunc(eng, st, a, info):
    v = eng.load(st, a[0])
    n = zi(a[1])
    eng.assign(st, a[0], SeqV(v.sh, v.lv, v.off, z3.If(n < zi(v.n), n, zi(v.n))))
    return one(st, UNIT)


@m("std::vec::Vec::<T, A>::swap_remove", doc="removes element i, the last element takes its place")
def _swap_remove(eng, st, a, info):
    v = eng.load(st, a[0])
    i = zi(a[1])
    eng.oblige(st, z3.And(i >= 0, i < zi(v.n)), "swap_remove index in range in " + str(eng.curkey), "panic")
    st.fact(z3.And(i >= 0, i < zi(v.n)))
    x = sel(v, i)
    facts = []
    w = upd(v, i, sel(v, sub(v.n, 1)), facts)
    st.fact(*facts)
    eng.assign(st, a[0], SeqV(w.sh, w.lv, w.off, sub(v.n, 1)))
    return one(st, x)


@m("core::slice::<impl [T]>::swap", doc="exchanges two elements")
def _sswap(eng, st, a, info):
    p = a[0]
    v = ld(eng, st, p)
    n = zi(eng.seqlen(v))
    i, j = zi(a[1]), zi(a[2])
    eng.oblige(st, z3.And(i >= 0, i < n, j >= 0, j < n), "swap indices in range in " + str(eng.curkey), "panic")
    st.fact(i < n, j < n)
    x, y = eng.load(st, eng.canon(p, ("i", i))), eng.load(st, eng.canon(p, ("i", j)))
    eng.assign(st, eng.canon(p, ("i", i)), y)
    eng.assign(st, eng.canon(p, ("i", j)), x)
    st.trace = st.trace + (("swap", a[1], a[2]),)
    return one(st, UNIT)


@m("core::slice::<impl [T]>::first", doc="first element")
def _first(eng, st, a, info):
    v = ld(eng, st, a[0])
    return [(s, none() if e else some(eng.proj(s, v, ("i", 0)))) for s, e in fork(eng, st, eng.seqlen(v) == 0)]


@m("core::slice::<impl [T]>::last", doc="last element")
def _last(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    return [(s, none() if e else some(eng.proj(s, v, ("i", sub(n, 1))))) for s, e in fork(eng, st, n == 0)]


@m("core::slice::<impl [T]>::get", doc="element at an index or None")
def _get(eng, st, a, info):
    v = ld(eng, st, a[0])
    if not (isz(a[1]) or isinstance(a[1], int)):
        raise Unsupported("get with range")
    return [(s, some(eng.proj(s, v, ("i", a[1]))) if e else none()) for s, e in fork(eng, st, zi(a[1]) < zi(eng.seqlen(v)))]


@m("core::slice::<impl [T]>::last_mut", doc="last element")
def _lastm(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    return [(s, none() if e else some(eng.canon(a[0], ("i", sub(n, 1))))) for s, e in fork(eng, st, n == 0)]


@m("core::slice::<impl [T]>::first_mut", doc="first element")
def _firstm(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    return [(s, none() if e else some(eng.canon(a[0], ("i", 0)))) for s, e in fork(eng, st, n == 0)]


@m("core::slice::<impl [T]>::split_first", doc="first element and the rest")
def _spf(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    res = []
    for s, e in fork(eng, st, n == 0):
        if e:
            res.append((s, none()))
        else:
            res.append((s, some(Agg("tuple", [eng.proj(s, v, ("i", 0)), eng.proj(s, v, ("s", 1, sub(n, 1)))]))))
    return res


@m("core::slice::<impl [T]>::split_first_mut", doc="first element and the rest")
def _spfm(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    res = []
    for s, e in fork(eng, st, n == 0):
        if e:
            res.append((s, none()))
        else:
            res.append((s, some(Agg("tuple", [eng.canon(a[0], ("i", 0)), eng.canon(a[0], ("s", 1, sub(n, 1)))]))))
    return res


@m("core::slice::<impl [T]>::split_at", doc="the first mid elements and the rest")
def _spa(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    eng.oblige(st, z3.And(zi(a[1]) >= 0, zi(a[1]) <= zi(n)), "split_at in range in " + str(eng.curkey), "panic")
    st.fact(zi(a[1]) <= zi(n))
    return one(st, Agg("tuple", [eng.proj(st, v, ("s", 0, a[1])), eng.proj(st, v, ("s", a[1], sub(n, a[1])))]))


@m("core::slice::<impl [T]>::split_at_mut", doc="the first mid elements and the rest")
def _spam(eng, st, a, info):
    v = ld(eng, st, a[0])
    n = eng.seqlen(v)
    eng.oblige(st, z3.And(zi(a[1]) >= 0, zi(a[1]) <= zi(n)), "split_at_mut in range in " + str(eng.curkey), "panic")
    st.fact(zi(a[1]) <= zi(n))
    return one(st, Agg("tuple", [eng.canon(a[0], ("s", 0, a[1])), eng.canon(a[0], ("s", a[1], sub(n, a[1])))]))


def rng_of(eng, st, r, n):
    """(lo, hi) of a range index"""
    if isinstance(r, Agg):
        if r.ty == "std::ops::Range":
            return r.f[0], r.f[1]
        if r.ty == "std::ops::RangeFrom":
            return r.f[0], n
        if r.ty == "std::ops::RangeTo":
            return 0, r.f[0]
        if r.ty == "std::ops::RangeFull":
            return 0, n
        if r.ty == "std::ops::RangeToInclusive":
            return 0, add(r.f[0], 1)
        if r.ty == "std::ops::RangeInclusive":
            return r.f[0], add(r.f[1], 1)
    raise Unsupported("range index %s" % (r,))


def _index(mut):
    def g(eng, st, a, info):
        if local_impl(info):
            return NotImplemented
        v = ld(eng, st, a[0])
        if isinstance(v, MapV):
            k = key1(eng, st, v.ksh, a[1])
            eng.oblige(st, v.has(k), "map index present", "panic")
            return one(st, v.get(k))
        n = eng.seqlen(v)
        if isz(a[1]) or isinstance(a[1], int):
            eng.oblige(st, z3.And(zi(a[1]) >= 0, zi(a[1]) < zi(n)), "index in range in " + str(eng.curkey), "panic")
            st.fact(zi(a[1]) < zi(n))
            if mut:
                return one(st, eng.canon(a[0], ("i", a[1])))
            return one(st, eng.proj(st, v, ("i", a[1])))
        lo, hi = rng_of(eng, st, a[1], n)
        eng.oblige(st, z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(n)), "range in bounds in " + str(eng.curkey), "panic")
        st.fact(zi(lo) <= zi(hi), zi(hi) <= zi(n))
        if mut:
            return one(st, eng.canon(a[0], ("s", lo, sub(hi, lo))))
        return one(st, eng.proj(st, v, ("s", lo, sub(hi, lo))))
    return g


m("std::ops::Index::index", doc="element(s); panics out of range")(_index(False))
m("std::ops::IndexMut::index_mut", doc="element(s); panics out of range")(_index(True))


@m("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice", doc="overwrites with an equally long slice")
def _cfs(eng, st, a, info):
    d, s = ld(eng, st, a[0]), ld(eng, st, a[1])
    eng.oblige(st, zi(eng.seqlen(d)) == zi(eng.seqlen(s)), "copy_from_slice: equal lengths in " + str(eng.curkey), "panic")
    st.fact(zi(eng.seqlen(d)) == zi(eng.seqlen(s)))
    if isinstance(d, SeqV) and isinstance(s, SeqV):
        p = a[0]
        if p.path and p.path[-1][0] == "s":
            eng.assign(st, p, s)
        else:
            eng.assign(st, p, SeqV(s.sh, s.lv, s.off, s.n))
        return one(st, UNIT)
    raise Unsupported("copy_from_slice of small arrays")


@m("std::boxed::Box::<T>::new_uninit", doc="box")
def _bnu(eng, st, a, info):
    root = ("B", fresh("box", I).decl().name())
    st.store[root] = None
    return one(st, Ptr(root))


@m("std::boxed::box_assume_init_into_vec_unsafe", doc="boxed array as vector")
def _baiv(eng, st, a, info):
    v = ld(eng, st, a[0])
    while isinstance(v, Agg) and v.ty == "?":
        v = v.f[-1]
    return one(st, eng.agg_seq(st, v))


@m("std::boxed::Box::<T>::new", doc="the same value")
def _boxnew(eng, st, a, info):
    return one(st, a[0])


@m("std::vec::from_elem", doc="n copies")
def _from_elem(eng, st, a, info):
    v, n = a[0], a[1]
    sh = shape_of(v)
    facts = []
    lv = [z3.K(I, l) for l in encode(sh, v, facts)]
    st.fact(*facts)
    return one(st, SeqV(sh, lv, 0, n))


@m("std::vec::Vec::<T, A>::resize_with", doc="truncates or appends results of the function")
def _resize_with(eng, st, a, info):
    v = eng.load(st, a[0])
    r = eng.apply(st, a[2], [])
    if len(r) != 1:
        raise Unsupported("resize_with")
    s2, x = r[0]
    facts = []
    ls = encode(v.sh, x, facts)
    n = zi(a[1])
    out = []
    for arr, l in zip(v.lv, ls):
        c = fresh("rsz", arr.sort())
        i = fresh("i", I)
        end = zi(add(v.off, v.n))
        facts.append(z3.ForAll([i], z3.Select(c, i) == z3.If(i < end, z3.Select(arr, i), l), patterns=[z3.Select(c, i)]))
        facts.append(z3.ForAll([i], z3.Implies(i < end, z3.Select(c, i) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
        out.append(c)
    s2.fact(*facts)
    eng.assign(s2, a[0], SeqV(v.sh, out, v.off, n))
    return one(s2, UNIT)


@m("std::vec::Vec::<T, A>::resize", doc="truncates or appends copies of the value")
def _resize(eng, st, a, info):
    x = a[2]
    return _resize_with(eng, st, [a[0], a[1], PyFn(lambda e, t, _: [(t, x)])], info)


@m("std::vec::Vec::<T, A>::append", doc="moves all elements of the other vector to the end")
def _append(eng, st, a, info):
    v, w = eng.load(st, a[0]), eng.load(st, a[1])
    eng.assign(st, a[0], concat(eng, st, v, w))
    eng.assign(st, a[1], SeqV(w.sh, w.lv, w.off, 0))
    return one(st, UNIT)


def concat(eng, st, v, w):
    if v.sh is None:
        return w
    facts = []
    out = []
    for x, y in zip(v.lv, w.lv):
        c = fresh("cat", x.sort())
        i = fresh("i", I)
        end = zi(add(v.off, v.n))
        shift = zi(sub(w.off, add(v.off, v.n)))
        facts.append(z3.ForAll([i], z3.Select(c, i) == z3.If(i < end, z3.Select(x, i), z3.Select(y, i + shift)), patterns=[z3.Select(c, i)]))
        facts.append(z3.ForAll([i], z3.Implies(i < end, z3.Select(c, i) == z3.Select(x, i)), patterns=[z3.Select(x, i)]))
        facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= zi(w.off), i < zi(add(w.off, w.n))), z3.Select(c, i - shift) == z3.Select(y, i)), patterns=[z3.Select(y, i)]))
        out.append(c)
    st.fact(*facts)
    return SeqV(v.sh, out, v.off, add(v.n, w.n))


# ---------------------------------------------------------------- sorting

def perm_seq(eng, st, v, name="sorted"):
    """a sequence that is a permutation of v, with ghost permutation (new index -> old index, absolute)"""
    out = [fresh(name, a.sort()) for a in v.lv]
    pi, inv = freshfn("perm", I, I), freshfn("invp", I, I)
    i = fresh("i", I)
    lo, hi = zi(v.off), zi(add(v.off, v.n))
    rng = z3.And(i >= lo, i < hi)
    st.fact(z3.ForAll([i], z3.Implies(rng, z3.And(pi(i) >= lo, pi(i) < hi, inv(pi(i)) == i,
                                                  *[z3.Select(o, i) == z3.Select(a, pi(i)) for o, a in zip(out, v.lv)])), patterns=[pi(i)]))
    for o in out:
        st.fact(z3.ForAll([i], z3.Implies(rng, z3.And(pi(i) >= lo, pi(i) < hi, inv(pi(i)) == i)), patterns=[z3.Select(o, i)]))
    st.fact(z3.ForAll([i], z3.Implies(rng, z3.And(inv(i) >= lo, inv(i) < hi, pi(inv(i)) == i)), patterns=[inv(i)]))
    for a in [] if eng.forward else v.lv:
        st.fact(z3.ForAll([i], z3.Implies(rng, z3.And(inv(i) >= lo, inv(i) < hi, pi(inv(i)) == i)), patterns=[z3.Select(a, i)]))
    # outside the (sub)slice nothing is known; assign() splices
    w = SeqV(v.sh, out, v.off, v.n)
    eng.lastperm = (pi, inv)
    st.trace = st.trace + (("perm", pi, inv, w),)
    return w


def sorted_fact(eng, st, w, notgt):
    """forall i<j: not (w[i] > w[j]), as given by notgt(x, y) -> z3 Bool"""
    i, j = fresh("i", I), fresh("j", I)
    base = V._n[0]
    x = decode(w.sh, [z3.Select(a, i) for a in w.lv])
    y = decode(w.sh, [z3.Select(a, j) for a in w.lv])
    lo, hi = zi(w.off), zi(add(w.off, w.n))
    s = st.copy()
    s.fact(lo <= i, i < hi, lo <= j, j < hi)
    g = notgt(s, x, y)
    nc = newconsts([g], base)
    if nc:
        g = z3.substitute(g, *[(c, freshfn(nm.split("!")[0] + "_ij", I, I, c.sort())(i, j)) for nm, c in nc.items()])
    pi = [z3.Select(w.lv[0], i), z3.Select(w.lv[0], j)]
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), g), patterns=[z3.MultiPattern(*pi)]))


def merged(eng, st, f):
    """run f(state) -> [(state, value)] for its value only; returns (merged value, facts)"""
    base = len(st.pc)
    s0 = st.copy()
    res = f(s0)
    return merge_paths(eng, st, base, res)


def merge_paths(eng, st, base, res):
    if not res:
        raise Unsupported("no path")
    val, facts = None, []
    for s, v in reversed(res):
        conds = [e for k, e in s.pc[base:] if k == "b"]
        seen = []
        for k, e in s.pc[base:]:
            if k == "b":
                seen.append(e)
            else:
                facts.append(z3.Implies(z3.And(seen), e) if seen else e)
        val = v if val is None else ite(z3.And(conds) if conds else True, v, val)
    return val, facts


def purity(eng, st, res):
    for s, _ in res:
        for r, v in s.store.items():
            if r in st.store and st.store[r] is not v and r[0] != "HELD":
                o = st.store[r]
                if o is None or v is None or o is MOVED or v is MOVED:
                    continue
                if isinstance(o, SetV) and isinstance(v, SetV) and o.arr.eq(v.arr):
                    continue
                raise Unsupported("function with side effects where a pure one is needed (%s)" % (r,))


def sort_model(keyf=None):
    def g(eng, st, a, info):
        p = a[0]
        v = ld(eng, st, p)
        if isinstance(v, Agg):
            # small array: sort as sequence is not tracked element-wise
            raise Unsupported("sort of a small array")
        s = st
        w = perm_seq(eng, s, v)
        kind = keyf

        def notgt(s, x, y):
            if kind == "natural":
                return z3.Not(zb(lt(eng, s, y, x)))
            if kind == "cmp":
                res = eng.apply(s.copy(), a[1], [x, y])
                purity(eng, s, res)
                val, fs = merge_paths(eng, s, len(s.pc), res)
                return z3.And(fs + [zi(eng.vidx(val)) != 2])
            rx = eng.apply(s.copy(), a[1], [x])
            ry = eng.apply(s.copy(), a[1], [y])
            purity(eng, s, rx)
            purity(eng, s, ry)
            vx, fx = merge_paths(eng, s, len(s.pc), rx)
            vy, fy = merge_paths(eng, s, len(s.pc), ry)
            return z3.And(fx + fy + [z3.Not(zb(lt(eng, s, vy, vx)))])
        sorted_fact(eng, s, w, notgt)
        eng.assign(s, p, w)
        return one(s, UNIT)
    return g


m("core::slice::<impl [T]>::sort_unstable", "std::slice::<impl [T]>::sort", "rayon::prelude::ParallelSliceMut::par_sort_unstable",
  "rayon::slice::ParallelSliceMut::par_sort_unstable", "rayon::prelude::ParallelSliceMut::par_sort",
  doc="permutation of the slice, in non-decreasing order")(sort_model("natural"))
m("core::slice::<impl [T]>::sort_unstable_by", "std::slice::<impl [T]>::sort_by", "rayon::prelude::ParallelSliceMut::par_sort_unstable_by",
  "rayon::prelude::ParallelSliceMut::par_sort_by", doc="permutation of the slice, non-decreasing by the comparison")(sort_model("cmp"))
m("core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_key", "rayon::prelude::ParallelSliceMut::par_sort_unstable_by_key",
  "rayon::prelude::ParallelSliceMut::par_sort_by_key", doc="permutation of the slice, non-decreasing by the key")(sort_model("key"))


@m("core::slice::<impl [T]>::binary_search_by", doc="position of an element that compares equal, if there is one (the slice has to be ordered by the comparison)")
def _bsearch(eng, st, a, info):
    v = ld(eng, st, a[0])
    if not isinstance(v, SeqV):
        raise Unsupported("binary search in a small array")

    def cmpat(k):
        s = st.copy()
        s.fact(zi(k) >= 0, zi(k) < zi(v.n))
        base = V._n[0]
        res = eng.apply(s, a[1], [sel(v, k)])
        purity(eng, s, res)
        val, fs = merge_paths(eng, s, len(s.pc), res)
        d = zi(eng.vidx(val))
        if newconsts([d] + fs, base):
            raise Unsupported("comparison of a binary search")
        return d, fs
    i, j = fresh("i", I), fresh("j", I)
    di, fi = cmpat(i)
    dj, fj = cmpat(j)
    n = zi(v.n)
    pat = lambda k: z3.Select(v.lv[0], zi(add(v.off, k)))
    defs = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(fi)), patterns=[pat(i)]) if fi else z3.BoolVal(True)
    st.fact(defs)
    eng.oblige(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), di <= dj), patterns=[z3.MultiPattern(pat(i), pat(j))]),
               "binary search: the slice is ordered by the comparison", "precondition")
    x = fresh("found", I)
    s1, s2 = st.copy(), st.copy()
    dx, fx = cmpat(x)
    s1.branch(z3.And(x >= 0, x < n, dx == 1))
    s1.fact(*fx)
    s2.branch(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), di != 1), patterns=[pat(i)]))
    y = fresh("insert", I)
    s2.fact(y >= 0, y <= n)
    return [(s1, ok(x)), (s2, err(y))]


# ---------------------------------------------------------------- iterators

def seq_it(eng, st, v, owned=False):
    if isinstance(v, SeqV):
        return It(v.n, lambda k, v=v: sel(v, k), 0, (), {"src": v, "owned": v if owned else None})
    if isinstance(v, Agg):
        def at(k, v=v):
            return eng.proj(None, v, ("i", k))
        return It(len(v.f), at, 0, (), {"agg": v})
    raise Unsupported("iteration over %s" % type(v).__name__)


def mut_it(eng, st, p):
    v = ld(eng, st, p)
    n = eng.seqlen(v)
    return It(n, lambda k, p=p: eng.canon(p, ("i", k)), 0, (), {"mut": p})


def to_it(eng, st, v, info=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Ptr):
        t = eng.load(st, v)
        if isinstance(t, It):
            return t
        if isinstance(t, Ptr):
            return to_it(eng, st, t)
        return mut_it(eng, st, v)
    if isinstance(v, Agg) and v.ty == "std::ops::Range":
        lo, hi = v.f
        if isinstance(lo, int) and isinstance(hi, int):
            n = max(hi - lo, 0)
        else:
            d = zi(hi) - zi(lo)
            n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        return It(n, lambda k, lo=lo: add(lo, k), 0, (), {"range": (lo, hi)})
    if isinstance(v, Agg) and v.ty == "std::ops::RangeInclusive":
        lo, hi = v.f[0], v.f[1]
        if isinstance(lo, int) and isinstance(hi, int):
            n = max(hi - lo + 1, 0)
        else:
            d = zi(hi) - zi(lo) + 1
            n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        return It(n, lambda k, lo=lo: add(lo, k), 0)
    if isinstance(v, EnumV) and v.ty == "std::option::Option":
        n = v.d if isinstance(v.d, int) else z3.If(v.d == 1, z3.IntVal(1), z3.IntVal(0))
        return It(n, lambda k: v.pay[1].f[0], 0)
    if isinstance(v, MapV):
        return map_it(eng, st, v, "entries")
    if isinstance(v, (SeqV, Agg)):
        return seq_it(eng, st, v, owned=True)
    raise Unsupported("iteration over %s" % type(v).__name__)


@m("std::ops::RangeInclusive::<Idx>::new", doc="inclusive range")
def _rinew(eng, st, a, info):
    return one(st, Agg("std::ops::RangeInclusive", [a[0], a[1]]))


@m("core::slice::<impl [T]>::windows", doc="all pieces of the given (constant) length")
def _windows(eng, st, a, info):
    v, w = ld(eng, st, a[0]), a[1]
    if not isinstance(v, SeqV) or not isinstance(w, int) or w < 1:
        raise Unsupported("windows of this length")
    n = zi(v.n)
    return one(st, It(z3.If(n >= w, n - (w - 1), z3.IntVal(0)), lambda k: SeqV(v.sh, v.lv, add(v.off, k), w)))


@m("std::iter::IntoIterator::into_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::IntoParallelRefIterator::par_iter",
   "rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "core::slice::<impl [T]>::iter", "rayon::iter::IndexedParallelIterator::with_max_len",
   "std::vec::Vec::<T, A>::drain", "std::iter::Iterator::fuse", "rayon::iter::IndexedParallelIterator::with_min_len",
   doc="iterates over the elements (rayon: each element exactly once, any order)")
def _into_iter(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    v = a[0]
    if info.c["p"].endswith("::iter") or info.c["p"].endswith("::par_iter"):
        v = ld(eng, st, v)
        return one(st, seq_it(eng, st, v))
    if info.c["p"].endswith("drain"):
        raise Unsupported("drain")
    it = to_it(eng, st, v, info)
    if "rayon" in info.c["p"]:
        it = it.with_(meta=dict(it.meta, par=True))
    return one(st, it)


@m("core::slice::<impl [T]>::iter_mut", doc="iterates over the elements")
def _iter_mut(eng, st, a, info):
    return one(st, mut_it(eng, st, a[0]))


@m("std::iter::once", doc="one element")
def _once(eng, st, a, info):
    v = a[0]
    return one(st, It(1, lambda k, v=v: v, 0))


def stage(kind):
    def g(eng, st, a, info):
        it = to_it(eng, st, a[0])
        if kind == "enumerate":
            if any(s[0] == "filter" for s in it.stages):
                raise Unsupported("enumerate after filter")
            return one(st, it.with_(stages=it.stages + (("enumerate", it.pos),)))
        return one(st, it.with_(stages=it.stages + ((kind, a[1]),)))
    return g


m("std::iter::Iterator::map", "rayon::iter::ParallelIterator::map", doc="applies the function to each element")(stage("map"))
m("std::iter::Iterator::filter", "rayon::iter::ParallelIterator::filter", doc="keeps the elements that satisfy the predicate")(stage("filter"))
m("std::iter::Iterator::filter_map", "rayon::iter::ParallelIterator::filter_map", doc="keeps and maps")(stage("filter_map"))
m("std::iter::Iterator::enumerate", "rayon::iter::IndexedParallelIterator::enumerate", doc="pairs each element with its position")(stage("enumerate"))


@m("std::iter::Iterator::cloned", "std::iter::Iterator::copied", "rayon::iter::ParallelIterator::cloned", "rayon::iter::ParallelIterator::copied", doc="the same elements")
def _cloned(eng, st, a, info):
    return one(st, to_it(eng, st, a[0]))


@m("std::iter::Iterator::skip", "rayon::iter::IndexedParallelIterator::skip", doc="without the first n elements")
def _skip(eng, st, a, info):
    it = to_it(eng, st, a[0])
    if any(s[0] in ("filter", "filter_map") for s in it.stages):
        raise Unsupported("skip after filter")
    n = zi(a[1])
    if isinstance(it.n, int) and isinstance(it.pos, int) and isinstance(a[1], int):
        p = min(it.n, it.pos + a[1])
    else:
        p = fresh("start", I)
        st = st.copy()
        st.fact(p == z3.If(zi(it.pos) + n <= zi(it.n), zi(it.pos) + n, zi(it.n)))
    return one(st, it.with_(pos=p))


@m("std::iter::Iterator::take", "rayon::iter::IndexedParallelIterator::take", doc="the first n elements")
def _take_it(eng, st, a, info):
    it = to_it(eng, st, a[0])
    if any(s[0] in ("filter", "filter_map") for s in it.stages):
        raise Unsupported("take after filter")
    if isinstance(it.n, int) and isinstance(it.pos, int) and isinstance(a[1], int):
        return one(st, it.with_(n=min(it.n, it.pos + a[1])))
    e = zi(it.pos) + zi(a[1])
    return one(st, it.with_(n=z3.If(e < zi(it.n), e, zi(it.n))))


@m("std::iter::Iterator::rev", "rayon::iter::IndexedParallelIterator::rev", doc="in reverse order")
def _rev(eng, st, a, info):
    it = to_it(eng, st, a[0])
    if it.stages or not is0(it.pos):
        raise Unsupported("rev of adapted iterator")
    n, at = it.n, it.at
    return one(st, It(n, lambda k: at(sub(sub(n, 1), k)), 0, (), {}))


@m("std::iter::Iterator::zip", "rayon::iter::IndexedParallelIterator::zip", doc="pairs up to the shorter length")
def _zip(eng, st, a, info):
    x, y = to_it(eng, st, a[0]), to_it(eng, st, a[1])
    return one(st, zipped(eng, x, y))


def zipped(eng, x, y):
    if x.stages or y.stages:
        raise Unsupported("zip of adapted iterators")
    nx, ny = sub(x.n, x.pos), sub(y.n, y.pos)
    if isinstance(nx, int) and isinstance(ny, int):
        n = min(nx, ny)
    else:
        n = z3.simplify(z3.If(zi(nx) <= zi(ny), zi(nx), zi(ny)))
    return It(n, lambda k: Agg("tuple", [x.at(add(x.pos, k)), y.at(add(y.pos, k))]), 0, (), {})


@m("itertools::zip_eq", doc="pairs; panics if the lengths differ")
def _zip_eq(eng, st, a, info):
    x, y = to_it(eng, st, a[0]), to_it(eng, st, a[1])
    eng.oblige(st, zi(sub(x.n, x.pos)) == zi(sub(y.n, y.pos)), "zip_eq: equal lengths in " + str(eng.curkey), "panic")
    st.fact(zi(sub(x.n, x.pos)) == zi(sub(y.n, y.pos)))
    z = zipped(eng, x, y)
    return one(st, z.with_(n=sub(x.n, x.pos)))


@m("std::iter::Iterator::chain", "rayon::iter::ParallelIterator::chain", doc="one after the other")
def _chain(eng, st, a, info):
    x, y = to_it(eng, st, a[0]), to_it(eng, st, a[1])
    if x.stages or y.stages:
        raise Unsupported("chain of adapted iterators")
    nx, ny = sub(x.n, x.pos), sub(y.n, y.pos)

    def at(k):
        if isinstance(k, int) and isinstance(nx, int):
            return x.at(add(x.pos, k)) if k < nx else y.at(add(y.pos, k - nx))
        return ite(zi(k) < zi(nx), x.at(add(x.pos, k)), y.at(add(y.pos, sub(k, nx))))
    return one(st, It(add(nx, ny), at, 0, (), {}))


@m("itertools::Itertools::cartesian_product", doc="all pairs, second index fastest")
def _cart(eng, st, a, info):
    x, y = to_it(eng, st, a[0]), to_it(eng, st, a[1])
    if x.stages or y.stages:
        raise Unsupported("cartesian product of adapted iterators")
    nx, ny = sub(x.n, x.pos), sub(y.n, y.pos)
    n = nx * ny if isinstance(nx, int) and isinstance(ny, int) else zi(nx) * zi(ny)

    def at(k):
        k = zi(k)
        return Agg("tuple", [x.at(add(x.pos, k / zi(ny))), y.at(add(y.pos, k % zi(ny)))])
    return one(st, It(n, at, 0, (), {"cart": (nx, ny)}))


def stages_at(eng, st, it, k):
    """[(state, kept, value)] of element k"""
    outs = [(st, True, it.at(k))]
    for sg in it.stages:
        new = []
        for s, kept, v in outs:
            if not kept:
                new.append((s, False, None))
                continue
            if sg[0] == "map":
                new += [(s2, True, r) for s2, r in eng.apply(s, sg[1], [v])]
            elif sg[0] == "enumerate":
                new.append((s, True, Agg("tuple", [sub(k, sg[1]), v])))
            elif sg[0] == "filter":
                for s2, r in eng.apply(s, sg[1], [v]):
                    for s3, b in fork(eng, s2, r):
                        new.append((s3, b, v if b else None))
            elif sg[0] == "filter_map":
                for s2, r in eng.apply(s, sg[1], [v]):
                    for s3, kk in fork_enum(eng, s2, r):
                        new.append((s3, kk == 1, r.pay[1].f[0] if kk == 1 else None))
            else:
                raise Unsupported("stage " + sg[0])
        outs = new
    return outs


def newconsts(es, base, allowed=()):
    """constants created after counter value `base`"""
    found = {}
    seen = set()
    stack = list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm:
                    try:
                        if int(nm.rsplit("!", 1)[1]) > base:
                            found[nm] = x
                    except ValueError:
                        pass
            elif x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                try:
                    if x.decl().name() not in allowed and int(x.decl().name().rsplit("!", 1)[1]) > base:
                        raise Unsupported("function symbol %s created under a quantifier" % x.decl().name())
                except ValueError:
                    pass
            stack += x.children()
    return found


def leaves_of(v):
    return encode(shape_of(v), v, [])


def map_value(v, f):
    """apply f to every expression of a value"""
    if isz(v):
        return f(v)
    if isinstance(v, (int, bool)) or v is None or v is MOVED:
        return v
    if isinstance(v, Agg):
        return Agg(v.ty, [map_value(x, f) for x in v.f])
    if isinstance(v, EnumV):
        return EnumV(v.ty, map_value(v.d, f), {k: map_value(p, f) for k, p in v.pay.items()})
    if isinstance(v, SeqV):
        return SeqV(v.sh, [f(a) for a in v.lv], map_value(v.off, f), map_value(v.n, f))
    if isinstance(v, Guard):
        return Guard(map_value(v.id, f), map_value(v.val, f) if v.val is not None else None)
    if isinstance(v, Opaque):
        return Opaque(v.ty, f(v.c), v.info)
    if isinstance(v, SetV):
        return SetV(f(v.arr), v.sh)
    if isinstance(v, MapV):
        return MapV(f(v.dom), [f(a) for a in v.lv], v.ksh, v.sh, v.kind, f(zi(v.n)))
    if isinstance(v, Ptr):
        return Ptr(v.root, [(e[0],) + tuple(map_value(x, f) if isz(x) else x for x in e[1:]) for e in v.path])
    raise Unsupported("mapping over %s" % type(v).__name__)


def exprs_of(v, out):
    map_value(v, lambda e: (out.append(e), e)[1])
    return out


class Gen:
    """value of an iterator pipeline at a symbolic position k"""
    pass


def dedupe(facts):
    seen, out = set(), []
    for f in facts:
        if f.get_id() not in seen:
            seen.add(f.get_id())
            out.append(f)
    return out


def gen(eng, st, it, effects=False):
    """evaluate the pipeline at a fresh position; side effects only if `effects` handles them"""
    base = V._n[0]
    k = fresh("k", I)
    base = V._n[0]
    s0 = st.copy()
    rng = z3.And(k >= zi(it.pos), k < zi(it.n))
    s0.fact(rng)
    b = len(s0.pc)
    outs = stages_at(eng, s0, it, k)
    g = Gen()
    g.k, g.rng, g.outs, g.base, g.b, g.s0 = k, rng, outs, base, b, s0
    if not effects:
        purity(eng, st, [(s, v) for s, _, v in outs])
    # merge
    keep = z3.BoolVal(False)
    val = None
    facts = []
    for s, kept, v in outs:
        conds = [e for kk, e in s.pc[b:] if kk == "b"]
        c = z3.And(conds) if conds else z3.BoolVal(True)
        seen = []
        for kk, e in s.pc[b:]:
            if kk == "b":
                seen.append(e)
            else:
                facts.append(z3.Implies(z3.And(seen), e) if seen else e)
        if kept:
            keep = z3.Or(keep, c)
            val = v if val is None else ite(c, v, val)
    facts = dedupe(facts)
    g.keep = z3.simplify(keep)
    g.val = val
    g.facts = facts
    # generalise constants created during evaluation
    es = list(facts) + [g.keep]
    if val is not None and not isinstance(val, Ptr):
        exprs_of(val, es)
    nc = newconsts(es, base)
    sub_ = []
    for nm, c in nc.items():
        f = freshfn(nm.split("!")[0] + "_k", I, c.sort())
        sub_.append((c, f(k)))
    g.sub = sub_
    gs = (lambda e: z3.substitute(e, *sub_)) if sub_ else (lambda e: e)
    g.gs = gs
    g.facts = [gs(e) for e in facts]
    g.keep = gs(g.keep)
    if val is not None:
        g.val = map_value(val, gs)
    g.skolems = [x[1] for x in sub_]
    return g


def at_k(g, e, k):
    return z3.substitute(e, (g.k, zi(k)))


def val_at(g, k):
    return map_value(g.val, lambda e: z3.substitute(e, (g.k, zi(k))))


def assume_gen(st, g):
    if g.facts:
        pats = [x for x in g.skolems]
        body = z3.Implies(g.rng, z3.And(g.facts))
        if pats:
            for p in pats:
                st.fact(z3.ForAll([g.k], body, patterns=[p]))
        else:
            st.fact(z3.ForAll([g.k], body))


def has_filter(it):
    return any(s[0] in ("filter", "filter_map") for s in it.stages)


@m("std::iter::Iterator::next", doc="next element of the iterator")
def _next(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    p = a[0]
    it = eng.load(st, p)
    if isinstance(it, Ptr):
        p = it
        it = eng.load(st, p)
    if isinstance(it, Agg) and it.ty == "std::ops::Range":
        it = to_it(eng, st, it)
    if not isinstance(it, It):
        h = eng.models.get("next:" + type(it).__name__)
        if h:
            return h(eng, st, a, info)
        return NotImplemented
    res = []
    if has_filter(it):
        g = gen(eng, st, it)
        # none left
        q = fresh("q", I)
        s1 = st.copy()
        s1.branch(z3.ForAll([g.k], z3.Implies(g.rng, z3.Not(g.keep))))
        assume_gen(s1, g)
        eng.assign(s1, p, it.with_(pos=it.n))
        res.append((s1, none()))
        s2 = st.copy()
        assume_gen(s2, g)
        s2.fact(q >= zi(it.pos), q < zi(it.n), z3.ForAll([g.k], z3.Implies(z3.And(g.k >= zi(it.pos), g.k < q), z3.Not(g.keep))))
        s2.fact(at_k(g, g.keep, q), *[at_k(g, f, q) for f in g.facts])
        eng.assign(s2, p, it.with_(pos=q + 1))
        res.append((s2, some(val_at(g, q))))
        return res
    for s, more in fork(eng, st, zi(it.pos) < zi(it.n) if not (isinstance(it.pos, int) and isinstance(it.n, int)) else it.pos < it.n):
        if not more:
            res.append((s, none()))
            continue
        eng.assign(s, p, it.with_(pos=add(it.pos, 1)))
        for s2, kept, v in stages_at(eng, s, it, it.pos):
            res.append((s2, some(v)))
    return res


def collect_seq(eng, st, it, base_name="coll", esh=None):
    """sequence of the pipeline's values, with the defining facts"""
    # nothing to do for a plain sequence
    if not it.stages and isinstance(it.meta.get("src"), SeqV):
        v = it.meta["src"]
        return SeqV(v.sh, v.lv, add(v.off, it.pos), sub(it.n, it.pos))
    if isinstance(it.n, int) and isinstance(it.pos, int) and it.n - it.pos <= 16 and not has_filter(it):
        vals = []
        s = st
        for k in range(it.pos, it.n):
            o = stages_at(eng, s, it, k)
            if len(o) != 1:
                break
            s, _, v = o[0]
            vals.append(v)
        else:
            st.store, st.pc, st.trace, st.writes = s.store, s.pc, s.trace, s.writes
            if vals:
                return eng.agg_seq(st, Agg("array", vals))
    acq = acquiring(eng, st, it)
    if acq is not None:
        return acq
    g = gen(eng, st, it)
    return from_gen(eng, st, it, g, base_name, esh)


def merge_shape(a, b):
    """shape a, with payloads of enum variants that a value does not show taken from shape b"""
    if b is None or a == b or a[0] != b[0]:
        return a
    if a[0] == "agg" and len(a[2]) == len(b[2]):
        return ("agg", a[1], [merge_shape(x, y) for x, y in zip(a[2], b[2])])
    if a[0] == "enum" and a[1] == b[1]:
        r = {}
        for k in set(a[2]) | set(b[2]):
            x, y = a[2].get(k), b[2].get(k)
            r[k] = y if x is None else merge_shape(x, y)
        return ("enum", a[1], r)
    if a[0] == "seq":
        return ("seq", merge_shape(a[1], b[1]))
    return a


def elem_shape(eng, info, ty):
    """shape of the elements of a collection type, if it is known"""
    try:
        sh = eng.shape(ty, info.fr.subst)
    except Unsupported:
        return None
    return sh[1] if sh[0] == "seq" else None


def from_gen(eng, st, it, g, base_name="coll", esh=None):
    assume_gen(st, g)
    v = g.val
    if v is None:
        raise Unsupported("collect of nothing")
    facts = []
    sh = merge_shape(shape_of(v), esh)
    ls = encode(sh, v, facts)
    if facts:
        raise Unsupported("collect of slices with offset")
    out = [fresh(base_name, z3.ArraySort(I, l.sort())) for l in ls]
    if not has_filter(it):
        for o in out:
            st.fact(z3.ForAll([g.k], z3.Implies(g.rng, z3.And([z3.Select(o2, g.k) == l for o2, l in zip(out, ls)] + g.facts)), patterns=[z3.Select(o, g.k)]))
        src = it.meta.get("src")
        if isinstance(src, SeqV):
            for a in src.lv:
                st.fact(z3.ForAll([g.k], z3.Implies(g.rng, z3.And([z3.Select(o2, g.k) == l for o2, l in zip(out, ls)])), patterns=[z3.Select(a, zi(add(src.off, g.k)))])) if is0(src.off) else None
        return SeqV(sh, out, it.pos, sub(it.n, it.pos))
    # filtered: increasing selection
    sg, tau = freshfn("sel", I, I), freshfn("pos", I, I)
    n = fresh("nsel", I)
    i, j = fresh("i", I), fresh("j", I)
    st.fact(n >= 0, n <= zi(it.n) - zi(it.pos))
    body = z3.And([sg(i) >= zi(it.pos), sg(i) < zi(it.n), tau(sg(i)) == i, at_k(g, g.keep, sg(i))] +
                  [z3.Select(o, i) == at_k(g, l, sg(i)) for o, l in zip(out, ls)])
    st.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[sg(i)]))
    for o in out:
        st.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[z3.Select(o, i)]))
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sg(i) < sg(j)), patterns=[z3.MultiPattern(sg(i), sg(j))]))
    tb = z3.Implies(z3.And(g.rng, g.keep), z3.And(tau(g.k) >= 0, tau(g.k) < n, sg(tau(g.k)) == g.k))
    st.fact(z3.ForAll([g.k], tb, patterns=[tau(g.k)]))
    r = SeqV(sh, out, 0, n)
    eng.lastsel = (sg, tau, n)
    st.trace = st.trace + (("sel", sg, tau, n),)
    return r


def acquiring(eng, st, it):
    """collect of write guards: every element acquires one lock (see DESIGN.md)"""
    if HELD not in st.store:
        return None
    eng.dry += 1
    try:
        g = gen(eng, st, it, effects=True)
    finally:
        eng.dry -= 1
    if not isinstance(g.val, Guard) or g.val.val is not None:
        return None
    idk = g.val.id
    h0 = st.store[HELD].arr
    hk = fresh("heldk", h0.sort())
    w = freshfn("acq", I, I)
    s0 = st.copy()
    k = fresh("k", I)
    x = fresh("x", I)
    idf = lambda t: z3.substitute(zi(idk), (g.k, zi(t)))
    s0.fact(k >= zi(it.pos), k < zi(it.n))
    kk = fresh("kk", I)
    s0.fact(z3.ForAll([x], z3.Implies(z3.Select(hk, x), z3.Or(z3.Select(h0, x), z3.And(w(x) >= zi(it.pos), w(x) < k, idf(w(x)) == x))), patterns=[z3.Select(hk, x)]))
    s0.fact(z3.ForAll([x], z3.Implies(z3.Select(h0, x), z3.Select(hk, x)), patterns=[z3.Select(h0, x)]))
    s0.store[HELD] = SetV(hk, ("z", I))
    # order: all locks acquired earlier by this iteration rank below the one acquired now
    kp = fresh("kp", I)
    for s, kept, v in stages_at(eng, s0, it, k):
        so = s.copy()
        so.fact(kp >= zi(it.pos), kp < k)
        eng.oblige(so, eng.lockrank(idf(kp)) < eng.lockrank(v.id), "locks are acquired in global order in " + str(eng.curkey), "lock order")
    assume_gen(st, g)
    h1 = fresh("held", h0.sort())
    w1 = freshfn("acqd", I, I)
    n = zi(it.n)
    out = fresh("guards", z3.ArraySort(I, I))
    eng.cache.setdefault("guardarrs", set()).add(out.get_id())
    eng.cache.setdefault("keepalive", []).append(out)
    st.fact(z3.ForAll([k], z3.Implies(z3.And(k >= zi(it.pos), k < n), z3.And(z3.Select(out, k) == idf(k), z3.Select(h1, idf(k)))), patterns=[z3.Select(out, k)]))
    st.fact(z3.ForAll([x], z3.Implies(z3.Select(h0, x), z3.Select(h1, x)), patterns=[z3.Select(h0, x)]))
    st.fact(z3.ForAll([x], z3.Implies(z3.Select(h1, x), z3.Or(z3.Select(h0, x), z3.And(w1(x) >= zi(it.pos), w1(x) < n, z3.Select(out, w1(x)) == x))), patterns=[z3.Select(h1, x)]))
    st.store[HELD] = SetV(h1, ("z", I))
    st.writes = st.writes | {(HELD, ())}
    if eng.interference:
        interfere(eng, st, h0)
    st.trace = st.trace + (("acquire*", out, it.pos, it.n, st.store[HEAP]),)
    return SeqV(("guard",), [out], it.pos, sub(it.n, it.pos))


def interfere(eng, st, held):
    """other threads may have changed every lock content that is not held; weight counts are constant"""
    h = st.store[HEAP]
    new = [fresh("heap", a.sort()) for a in h.lv]
    x = fresh("x", I)
    for a, b in zip(h.lv, new):
        st.fact(z3.ForAll([x], z3.Implies(z3.Select(held, x), z3.Select(a, x) == z3.Select(b, x)), patterns=[z3.Select(b, x)]))
    if len(h.lv) > 1:
        nl = z3.Select(new[0], x)
        st.fact(z3.ForAll([x], z3.And(z3.Implies(z3.Not(z3.Select(held, x)), nl == eng.nw(x)), nl >= 0), patterns=[nl]))
    st.store[HEAP] = SeqV(h.sh, new, 0, h.n)
    st.writes = st.writes | {(HEAP, ())}


@m("std::iter::Iterator::collect", "rayon::iter::ParallelIterator::collect", "std::iter::FromIterator::from_iter", doc="all elements in order")
def _collect(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    it = to_it(eng, st, a[0])
    ts = info.targs
    target = eng.tyd(ts[-1] if info.c["p"].endswith("collect") else ts[0]) if ts else ""
    if info.c["p"].endswith("from_iter"):
        im = eng.find_impl(info.fr, info.c, a)
        if im:
            return eng.inline(st, im[0], a, im[1])
    elif ts and ts[-1]["k"] == "adt":
        c2 = {"trait": "std::iter::FromIterator", "name": "from_iter", "a": [ts[-1]]}
        im = eng.find_impl(info.fr, c2, a)
        if im:
            return eng.inline(st, im[0], a, im[1])
    tt = (ts[-1] if info.c["p"].endswith("collect") else ts[0]) if ts else {}
    if tt.get("k") == "adt" and tt["p"] in ("std::result::Result", "std::option::Option"):
        return collect_try(eng, st, it, tt, info)
    if tt.get("k") == "adt" and tt["p"] in ("std::collections::HashMap", "std::collections::BTreeMap") and eng.shape(tt, info.fr.subst)[0] == "map":
        sh = eng.shape(tt, info.fr.subst)
        return one(st, map_extend(eng, st, empty_map(sh[1], sh[2], sh[3]), it))
    if not any(x in target for x in ("Vec", "Box", "&", "[")):
        raise Unsupported("collect into " + target)
    ty = (ts[-1] if info.c["p"].endswith("collect") else ts[0]) if ts else None
    return one(st, collect_seq(eng, st, it, esh=elem_shape(eng, info, ty) if ty else None))


def collect_try(eng, st, it, tt, info):
    """collection of results (options): the payloads if all elements are Ok (Some), otherwise the first that is not"""
    isopt = tt["p"] == "std::option::Option"
    good = 1 if isopt else 0
    esh = elem_shape(eng, info, tt["a"][0])
    v = collect_seq(eng, st, it)
    if v.sh[0] != "enum" or v.sh[2].get(good) is None:
        raise Unsupported("collect of results")
    n, k, q = zi(v.n), fresh("k", I), fresh("q", I)
    d = lambda i: zi(sel(v, i).d)
    nd = len(sorts(v.sh))
    s1, s2 = st.copy(), st.copy()
    s1.branch(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), d(k) == good), patterns=[d(k)]))
    s2.fact(0 <= q, q < n, d(q) != good, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < q), d(k) == good), patterns=[d(k)]))
    res = []
    # the payload of the good variant: a slice of the leaves
    lo = 1
    for var in sorted(v.sh[2]):
        if var == good:
            break
        lo += len(sorts(v.sh[2][var])) if v.sh[2][var] is not None else 0
    psh = v.sh[2][good][2][0]
    w = SeqV(psh, v.lv[lo:lo + len(sorts(psh))], v.off, v.n)
    if eng.feasible(s1):
        res.append((s1, some(w) if isopt else ok(w)))
    if eng.feasible(s2):
        if isopt:
            res.append((s2, none()))
        else:
            e = sel(v, q).pay.get(1)
            res.append((s2, err(e.f[0] if e is not None else Opaque("error"))))
    return res


SUM = z3.Function("sum", z3.ArraySort(I, R), I, I, R)  # sum of a[lo..hi)


@m("std::iter::Iterator::sum", "rayon::iter::ParallelIterator::sum", doc="the sum (exact, so any order)")
def _sum(eng, st, a, info):
    it = to_it(eng, st, a[0])
    if isinstance(it.n, int) and isinstance(it.pos, int) and it.n - it.pos <= 16 and not has_filter(it):
        tot = None
        s = st
        for k in range(it.pos, it.n):
            o = stages_at(eng, s, it, k)
            if len(o) != 1:
                raise Unsupported("branching sum")
            s, _, v = o[0]
            v = ld(eng, s, v)
            tot = v if tot is None else tot + v
        return one(s, tot if tot is not None else z3.RealVal(0))
    g = gen(eng, st, it)
    assume_gen(st, g)
    v = g.val
    if not (isz(v) and v.sort() == R):
        raise Unsupported("sum of %s" % (v,))
    arr = fresh("terms", z3.ArraySort(I, R))
    term = v if not has_filter(it) else z3.If(g.keep, v, z3.RealVal(0))
    st.fact(z3.ForAll([g.k], z3.Implies(g.rng, z3.And([z3.Select(arr, g.k) == term] + g.facts)), patterns=[z3.Select(arr, g.k)]))
    st.trace = st.trace + (("sum", arr, it.pos, it.n, it.meta),)
    return one(st, SUM(arr, zi(it.pos), zi(it.n)))


CNT = z3.Function("count", z3.ArraySort(I, B), I, I, I)


@m("std::iter::Iterator::count", "rayon::iter::ParallelIterator::count", doc="number of elements")
def _count(eng, st, a, info):
    it = to_it(eng, st, a[0])
    if not has_filter(it):
        return one(st, sub(it.n, it.pos))
    g = gen(eng, st, it)
    assume_gen(st, g)
    arr = fresh("cnt", z3.ArraySort(I, B))
    st.fact(z3.ForAll([g.k], z3.Implies(g.rng, z3.And([z3.Select(arr, g.k) == g.keep] + g.facts)), patterns=[z3.Select(arr, g.k)]))
    c = CNT(arr, zi(it.pos), zi(it.n))
    st.fact(c >= 0, c <= zi(it.n) - zi(it.pos))
    st.trace = st.trace + (("count", arr, it.pos, it.n),)
    return one(st, c)


def _extreme(which, last):
    def f(eng, st, a, info):
        it = to_it(eng, st, a[0])
        if has_filter(it):
            raise Unsupported("extreme after filter")
        res = []
        for s, e in fork(eng, st, zi(it.pos) >= zi(it.n)):
            if e:
                res.append((s, none()))
                continue
            itk = it
            if len(a) > 1:
                itk = it.with_(stages=it.stages + (("map", PyFn(lambda e, t, x: [(t2, Agg("tuple", [x[0], kv])) for t2, kv in e.apply(t, a[1], [x[0]])])),))
            g = gen(eng, s, itk)
            assume_gen(s, g)
            fs = list(g.facts)
            if len(a) > 1:
                key = g.val.f[1]
                g.val = g.val.f[0]
            else:
                key = g.val
            mm = fresh("best", I)
            s.fact(mm >= zi(it.pos), mm < zi(it.n))
            kb = map_value(key, lambda x: z3.substitute(x, (g.k, mm)))
            for x in fs:
                s.fact(z3.substitute(x, (g.k, mm)))
            worse = lt(eng, s, kb, key) if which == "max" else lt(eng, s, key, kb)
            body = z3.Implies(g.rng, z3.And(fs + [z3.Not(zb(worse))]))
            s.fact(z3.ForAll([g.k], body))
            if "rayon" not in info.c["p"]:
                tie = z3.And(g.rng, g.k > mm if last else g.k < mm)
                strict = lt(eng, s, key, kb) if which == "max" else lt(eng, s, kb, key)
                s.fact(z3.ForAll([g.k], z3.Implies(tie, z3.And(fs + [zb(strict)]))))
            for f_ in g.facts:
                s.fact(z3.substitute(f_, (g.k, mm)))
            s.trace = s.trace + (("best", mm),)
            res.append((s, some(val_at(g, mm))))
        return res
    return f


m("std::iter::Iterator::max_by_key", "rayon::iter::ParallelIterator::max_by_key", doc="an element with the largest key (std: the last one)")(_extreme("max", True))
m("std::iter::Iterator::min_by_key", "rayon::iter::ParallelIterator::min_by_key", doc="an element with the smallest key (std: the first one)")(_extreme("min", False))
m("std::iter::Iterator::max", "rayon::iter::ParallelIterator::max", doc="a largest element")(_extreme("max", True))
m("std::iter::Iterator::min", "rayon::iter::ParallelIterator::min", doc="a smallest element")(_extreme("min", False))


def _quant(which):
    def f(eng, st, a, info):
        it = to_it(eng, st, ld(eng, st, a[0]) if isinstance(a[0], Ptr) else a[0])
        fn = a[1]
        if isinstance(it.n, int) and isinstance(it.pos, int) and it.n - it.pos <= 16 and not has_filter(it):
            r = []
            s = st
            for k in range(it.pos, it.n):
                o = stages_at(eng, s, it, k)
                if len(o) != 1:
                    raise Unsupported("branching any/all")
                s, _, v = o[0]
                val, fs = merged(eng, s, lambda x: eng.apply(x, fn, [v]))
                s.fact(*fs)
                r.append(zb(val))
            return one(s, z3.Or(r) if which == "any" else z3.And(r))
        it2 = it.with_(stages=it.stages + (("map", fn),))
        g = gen(eng, st, it2)
        assume_gen(st, g)
        b = fresh(which, B)
        w = fresh("wit", I)
        c = z3.And(g.keep, zb(g.val)) if which == "any" else z3.Implies(g.keep, zb(g.val))
        wr = z3.And(w >= zi(it.pos), w < zi(it.n))
        if which == "any":
            st.fact(z3.Implies(b, z3.And(wr, at_k(g, c, w))), z3.Implies(z3.Not(b), z3.ForAll([g.k], z3.Implies(g.rng, z3.Not(c)))))
        else:
            st.fact(z3.Implies(z3.Not(b), z3.And(wr, z3.Not(at_k(g, c, w)))), z3.Implies(b, z3.ForAll([g.k], z3.Implies(g.rng, c))))
        return one(st, b)
    return f


@m("std::iter::Iterator::position", doc="number of elements before the first that satisfies the predicate")
def _position(eng, st, a, info):
    if local_impl(info):
        return NotImplemented
    p = a[0] if isinstance(a[0], Ptr) else None
    it = to_it(eng, st, ld(eng, st, a[0]) if p else a[0])
    if has_filter(it):
        return NotImplemented
    g = gen(eng, st, it.with_(stages=it.stages + (("map", a[1]),)))
    assume_gen(st, g)
    w = fresh("position", I)
    c = z3.And(g.keep, zb(g.val))
    end = zi(it.n)
    first = z3.ForAll([g.k], z3.Implies(z3.And(g.rng, g.k < w), z3.Not(c)))
    st.fact(zi(it.pos) <= w, z3.Or(w < end, w == end, zi(it.pos) > end), first)
    out = []
    for s, b in fork(eng, st, w < end):
        if b:
            s.fact(at_k(g, c, w))
        else:
            s.fact(z3.Implies(zi(it.pos) <= end, w == end))
        if p is not None:
            eng.assign(s, p, it.with_(pos=z3.If(w < end, w + 1, end)))
        out.append((s, some(add(w, 0) if is0(it.pos) else w - zi(it.pos)) if b else none()))
    return out


m("std::iter::Iterator::any", "rayon::iter::ParallelIterator::any", doc="some element satisfies the predicate")(_quant("any"))
m("std::iter::Iterator::all", "rayon::iter::ParallelIterator::all", doc="every element satisfies the predicate")(_quant("all"))


def stores_at(new, old):
    """indices at which array `new` differs from `old` as a chain of stores, or None"""
    idx = []
    e = new
    while not e.eq(old):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
            idx.append(e.arg(1))
            e = e.arg(0)
        else:
            return None
    return idx


def scatter(eng, st, it, fn):
    """for_each whose body changes, for element k, only array cells with one index idx(k)"""
    it2 = it.with_(stages=it.stages + (("map", fn),))
    g = gen(eng, st, it2, effects=True)
    changed = set()
    for s, kept, v in g.outs:
        for r, nv in s.store.items():
            if r in st.store and st.store[r] is not nv and not (r == HELD and st.store[r].arr.eq(nv.arr)):
                if st.store[r] in (None, MOVED) or nv in (None, MOVED):
                    continue
                changed.add(r)
    # HELD must be restored
    upd_ = []
    for r in changed:
        upd_ += scatter_root(eng, st, it, g, r)
    assume_gen(st, g)
    for u in upd_:
        apply_scatter(eng, st, it, g, *u)
    return one(st, UNIT)


def seq_paths(v, path=()):
    """all sequence-valued positions of a value, without entering sequences"""
    if isinstance(v, SeqV):
        yield path, v
    elif isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from seq_paths(x, path + (("f", i),))
    elif isinstance(v, EnumV):
        for k, p in v.pay.items():
            if p is not None:
                yield from seq_paths(p, path + (("d", k),))


def set_as_seq(v):
    return SeqV(("z", B), [v.arr], 0, 0)


def scatter_root(eng, st, it, g, r):
    old = st.store[r]
    res = []
    olds = dict(seq_paths(old))
    if isinstance(old, SetV):
        olds = {(): set_as_seq(old)}
    for path, seq in olds.items():
        idx = None
        finals = []
        touched = False
        for s, kept, _ in g.outs:
            n = s.store[r]
            for e in path:
                n = eng.proj(s, n, e)
            if isinstance(n, SetV):
                n = set_as_seq(n)
                if n.lv[0].eq(seq.lv[0]):
                    n = seq
            if n is seq:
                finals.append((s, None))
                continue
            if not isinstance(n, SeqV) or not zi(n.off).eq(zi(seq.off)) or not zi(n.n).eq(zi(seq.n)):
                raise Unsupported("for_each changes the shape of a sequence")
            for a, b in zip(n.lv, seq.lv):
                ix = stores_at(a, b)
                if ix is None:
                    raise Unsupported("for_each changes a whole array")
                for x in ix:
                    if idx is None:
                        idx = x
                    elif not idx.eq(x) and not z3.simplify(idx - x).eq(z3.IntVal(0)):
                        raise Unsupported("for_each writes several elements")
            touched = True
            finals.append((s, n))
        if not touched or idx is None:
            continue
        conds = [z3.And([e for kk, e in s.pc[g.b:] if kk == "b"] or [z3.BoolVal(True)]) for s, n in finals]
        news = [[z3.simplify(z3.Select(a, idx)) for a in (n or seq).lv] for s, n in finals]
        outer = None
        base = list(seq.lv)
        if not any(x.eq(g.k) for x in eng.subterms(idx)):
            # the same cell for every k: the elements of a sequence inside the cell are written
            outer, oix = idx, idx
            idx = None
            base = [z3.simplify(z3.Select(a, oix)) for a in seq.lv]
            for ls in news:
                for x, y in zip(ls, base):
                    if x.eq(y):
                        continue
                    ix = stores_at(x, y) if z3.is_array(x) else None
                    if ix is None:
                        raise Unsupported("for_each changes one cell repeatedly")
                    for w in ix:
                        if idx is None:
                            idx = w
                        elif not idx.eq(w) and not z3.simplify(idx - w).eq(z3.IntVal(0)):
                            raise Unsupported("for_each writes several elements")
            if idx is None:
                continue
            which = [j for j in range(len(base)) if any(not ls[j].eq(base[j]) for ls in news)]
            news = [[z3.simplify(z3.Select(ls[j], idx)) for j in which] for ls in news]
            base = [base[j] for j in which]
        # merged new leaves at idx
        leaves = None
        for c, ls in reversed(list(zip(conds, news))):
            leaves = ls if leaves is None else [z3.If(c, x, y) if not x.eq(y) else x for x, y in zip(ls, leaves)]
        leaves = [g.gs(x) for x in leaves]
        idx = g.gs(idx)
        # constants created while evaluating the effects
        nc = newconsts(leaves + [idx], g.base, {x.decl().name() for x in g.skolems})
        if nc:
            sb = [(c, freshfn(nm.split("!")[0] + "_k", I, c.sort())(g.k)) for nm, c in nc.items()]
            leaves = [z3.substitute(x, *sb) for x in leaves]
            g.facts = [z3.substitute(x, *sb) for x in g.facts]
            g.skolems += [x[1] for x in sb]
        # only the own element may be read
        for x in leaves:
            for t in eng.subterms(x):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and any(t.arg(0).eq(a) for a in base):
                    if not z3.simplify(t.arg(1) - idx).eq(z3.IntVal(0)):
                        raise Unsupported("for_each reads another element")
        res.append((r, path, seq, idx, leaves, None if outer is None else (g.gs(outer), which)))
    return res


def apply_scatter(eng, st, it, g, r, path, seq, idx, leaves, nested=None):
    whole = seq
    if nested:
        outer, which = nested
        seq = SeqV(None, [z3.simplify(z3.Select(whole.lv[j], outer)) for j in which], 0, 0)
    k1, k2 = fresh("k", I), fresh("k", I)
    i1, i2 = z3.substitute(idx, (g.k, k1)), z3.substitute(idx, (g.k, k2))
    s = st.copy()
    s.fact(z3.substitute(g.rng, (g.k, k1)), z3.substitute(g.rng, (g.k, k2)), k1 != k2)
    eng.oblige(s, i1 != i2, "elements treated independently are distinct in " + str(eng.curkey), "frame")
    inv = freshfn("at", I, I)
    out = [fresh("sc", a.sort()) for a in seq.lv]
    linear = z3.simplify(idx - g.k)
    simple = z3.is_int_value(linear) or not any(x.eq(g.k) for x in eng.subterms(linear))
    x = fresh("x", I)
    keep = z3.BoolVal(True)
    if has_filter(it):
        raise Unsupported("for_each after filter")
    if simple:
        kx = x - linear
        inside = z3.substitute(g.rng, (g.k, kx))
        for o, a, l in zip(out, seq.lv, leaves):
            body = z3.Select(o, x) == z3.If(inside, z3.substitute(l, (g.k, kx)), z3.Select(a, x))
            st.fact(z3.ForAll([x], body, patterns=[z3.Select(o, x)]))
            st.fact(z3.ForAll([x], body, patterns=[z3.Select(a, x)]))
            for f in g.facts:
                st.fact(z3.ForAll([x], z3.Implies(inside, z3.substitute(f, (g.k, kx))), patterns=[z3.Select(o, x)]))
    else:
        q, shift = fresh("q", I), None
        if z3.is_app(idx) and idx.decl().kind() == z3.Z3_OP_SELECT:
            shift = z3.simplify(idx.arg(1) - g.k)
            if any(t.eq(g.k) for t in eng.subterms(shift)) or any(t.eq(g.k) for t in eng.subterms(idx.arg(0))):
                shift = None
        for o, a, l in zip(out, seq.lv, leaves):
            b1 = z3.Implies(g.rng, z3.And([z3.Select(o, idx) == l] + g.facts))
            if shift is not None:
                kq = q if is0(shift) else q - shift
                b2 = z3.substitute(b1, (g.k, kq))
                b2 = z3.substitute(b2, (z3.substitute(idx, (g.k, kq)), z3.Select(idx.arg(0), q)))
                st.fact(z3.ForAll([q], b2, patterns=[z3.Select(idx.arg(0), q)]))
            else:
                st.fact(z3.ForAll([g.k], b1, patterns=[idx] if z3.is_app(idx) and idx.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and idx.num_args() else []))
            st.fact(z3.ForAll([x], z3.Or(z3.Select(o, x) == z3.Select(a, x), z3.And(z3.substitute(g.rng, (g.k, inv(x))), z3.substitute(idx, (g.k, inv(x))) == x)), patterns=[z3.Select(o, x)]))
    if nested:
        lv = list(whole.lv)
        for j, o in zip(which, out):
            lv[j] = z3.Store(lv[j], outer, o)
        eng.assign(st, Ptr(r, path), SeqV(whole.sh, lv, whole.off, whole.n))
    elif isinstance(st.store[r], SetV):
        eng.assign(st, Ptr(r, path), SetV(out[0], st.store[r].sh))
    else:
        eng.assign(st, Ptr(r, path), SeqV(seq.sh, out, seq.off, seq.n))
    st.trace = st.trace + (("scatter", r, inv),)


@m("std::iter::Iterator::for_each", "rayon::iter::ParallelIterator::for_each", doc="applies the function to each element (rayon: any order, concurrently)")
def _for_each(eng, st, a, info):
    it = to_it(eng, st, a[0])
    h = eng.foreach_specs.get(eng.curkey)
    if h:
        return h(eng, st, it, a[1], info)
    if isinstance(it.n, int) and isinstance(it.pos, int) and it.n - it.pos <= 16:
        states = [st]
        for k in range(it.pos, it.n):
            new = []
            for s in states:
                for s2, kept, v in stages_at(eng, s, it, k):
                    if not kept:
                        new.append(s2)
                        continue
                    new += [s3 for s3, _ in eng.apply(s2, a[1], [v])]
            states = new
        return [(s, UNIT) for s in states]
    return scatter(eng, st, it, a[1])


def foreach_rule(eng, st, fr, bb):
    """`for x in it { .. }` whose body only changes, for element k, cells with one index idx(k): see DESIGN.md.
    Returns the state after all iterations (iterator exhausted) or None if the loop is not of this form."""
    loops, live = fr.loops
    cand = []
    for i in live[bb]:
        v = st.store.get(("L", fr.fid, i))
        if isinstance(v, It) and not (isinstance(v.n, int) and isinstance(v.pos, int) and v.n - v.pos <= eng.unroll_max) and not has_filter(v):
            cand.append((("L", fr.fid, i), v))
    # the iterator the header advances: a `next` call in the header's straight-line prefix
    if len(cand) < 1:
        return None
    for root, it in cand:
        r = try_foreach(eng, st, fr, bb, root, it)
        if r is not None:
            return r
    return None


def try_foreach(eng, st, fr, bb, root, it):
    loops, live = fr.loops
    n0 = len(eng.obls)
    nb = eng.nobl
    k = fresh("k", I)
    base = V._n[0]
    s = st.copy()
    s.store[root] = it.with_(pos=k)
    rng = z3.And(k >= zi(it.pos), k < zi(it.n))
    s.fact(rng)
    b = len(s.pc)
    backs = []
    s.loops = ((bb, "dry", backs),)
    exits = []
    try:
        work = []
        r = eng._from(s, fr, bb, work)
        if r is not None:
            exits.append(r)
        while work:
            s2, b2 = work.pop()
            if b2 not in loops[bb]:
                exits.append(s2)
                continue
            r = eng.block(s2, fr, b2, work, False)
            if r is not None:
                exits.append(r)
        bad = bool(exits) or not backs
        changed = set()
        for x in backs:
            v = x.store.get(root)
            if not isinstance(v, It) or not z3.simplify(zi(v.pos) - k).eq(z3.IntVal(1)):
                bad = True
            for r_, nv in x.store.items():
                if r_ == root or r_ not in st.store or st.store[r_] is nv:
                    continue
                if r_[0] == "L" and r_[1] == fr.fid and r_[2] not in live[bb]:
                    continue
                o = st.store[r_]
                if r_ == HELD and isinstance(o, SetV) and o.arr.eq(nv.arr):
                    continue
                if o in (None, MOVED) or nv in (None, MOVED):
                    bad = bad or not (o in (None, MOVED) and nv in (None, MOVED))
                    continue
                changed.add(r_)
        if bad:
            raise Unsupported("not a foreach loop (%s)" % [exits and "exits", not backs and "no back edge", changed])
        g = Gen()
        g.k, g.rng, g.base, g.b = k, rng, base, b
        g.outs = [(x, True, UNIT) for x in backs]
        facts = []
        for x in backs:
            seen = []
            for kk, e in x.pc[b:]:
                if kk == "b":
                    seen.append(e)
                else:
                    facts.append(z3.Implies(z3.And(seen), e) if seen else e)
        facts = dedupe(facts)
        nc = newconsts(facts, base)
        sb = [(c, freshfn(nm.split("!")[0] + "_k", I, c.sort())(k)) for nm, c in nc.items()]
        g.gs = (lambda e: z3.substitute(e, *sb)) if sb else (lambda e: e)
        g.facts = [g.gs(e) for e in facts]
        g.skolems = [x[1] for x in sb]
        g.keep = z3.BoolVal(True)
        upd_ = []
        for r_ in sorted(changed, key=str):
            u = scatter_root(eng, st, it, g, r_)
            # nothing but the recorded sequence cells may differ
            check_only(eng, st, g, r_, u)
            upd_ += u
        own_reads(eng, g, upd_, [e for x in backs for _, e in x.pc[b:]] + [o.goal for o in eng.obls[n0:]])
    except Unsupported as e:
        del eng.obls[n0:]
        eng.stats.setdefault("notforeach", []).append((fr.path, bb, str(e)))
        return None
    out = st.copy()
    assume_gen(out, g)
    for u in upd_:
        apply_scatter(eng, out, it, g, *u)
    out.store[root] = it.with_(pos=it.n)
    out.writes = out.writes | {(root, ())}
    eng.stats.setdefault("foreach", set()).add((fr.path, bb))
    return out


def check_only(eng, st, g, r, upds):
    """apart from the sequences in `upds`, the value at root r is unchanged"""
    paths = {u[1] for u in upds}

    def same(o, n, path):
        if path in paths or o is n:
            return
        if isz(o) and isz(n) and o.eq(n):
            return
        if isinstance(o, Agg) and isinstance(n, Agg) and len(o.f) == len(n.f):
            for i, (x, y) in enumerate(zip(o.f, n.f)):
                same(x, y, path + (("f", i),))
            return
        if isinstance(o, (int, bool)) and isinstance(n, (int, bool)) and o == n:
            return
        if isinstance(o, EnumV) and isinstance(n, EnumV) and (o.d is n.d or (isinstance(o.d, int) and o.d == n.d)):
            for kk in o.pay:
                if o.pay[kk] is not None and n.pay.get(kk) is not None:
                    same(o.pay[kk], n.pay[kk], path + (("d", kk),))
            return
        if isinstance(o, Ptr) and isinstance(n, Ptr) and o.root == n.root and str(o.path) == str(n.path):
            return
        if isinstance(o, SetV) and isinstance(n, SetV) and o.arr.eq(n.arr):
            return
        if isinstance(o, SeqV) and isinstance(n, SeqV) and all(a.eq(b) for a, b in zip(o.lv, n.lv)) and zi(o.n).eq(zi(n.n)) and zi(o.off).eq(zi(n.off)):
            return
        raise Unsupported("the loop changes %s" % (r,))
    for s, _, _ in g.outs:
        same(st.store[r], s.store[r], ())


def own_reads(eng, g, upds, exprs):
    """the arrays the loop changes may be read only at the element's own index"""
    arrs = []
    for _, _, seq, idx, _, nested in upds:
        if nested:
            outer, which = nested
            for j in which:
                arrs += [(seq.lv[j], outer), (z3.simplify(z3.Select(seq.lv[j], outer)), idx)]
        else:
            arrs += [(a, idx) for a in seq.lv]
    def at(j, idx):
        return z3.simplify(j - idx).eq(z3.IntVal(0))

    def version(x, a, idx):
        # the array itself, or the array after writes at the own index
        while not x.eq(a):
            if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE and x.arg(1).sort() == I and at(x.arg(1), idx)):
                return False
            x = x.arg(0)
        return True
    for e in exprs:
        e = g.gs(e) if isz(e) else e
        if not isz(e):
            continue
        for t in eng.subterms(e):
            if not z3.is_app(t) or not t.num_args():
                continue
            for a, idx in arrs:
                for j, x in enumerate(t.children()):
                    if x.sort() != a.sort() or not version(x, a, idx):
                        continue
                    if j == 0 and t.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and at(t.arg(1), idx):
                        continue
                    raise Unsupported("the loop reads another element: %s" % str(t)[:200])


@m("std::iter::Iterator::size_hint", doc="unspecified hint")
def _size_hint(eng, st, a, info):
    n = fresh("hint", I)
    st.fact(n >= 0, n < 2 ** 62)
    o = EnumV("std::option::Option", fresh("hd", I), {0: Agg("std::option::Option", []), 1: Agg("std::option::Option", [fresh("hu", I)])})
    st.fact(z3.And(o.d >= 0, o.d <= 1))
    return one(st, Agg("tuple", [n, o]))


# ---------------------------------------------------------------- hash sets / maps

@m("std::collections::HashSet::<T>::new", doc="empty set")
def _hs_new(eng, st, a, info):
    ksh = eng.shape(info.targs[0], info.fr.subst)
    return one(st, SetV(z3.K(ksort(ksh), z3.BoolVal(False)), ksh))


@m("std::collections::HashMap::<K, V>::new", "std::collections::BTreeMap::<K, V>::new", doc="empty map")
def _hm_new(eng, st, a, info):
    ksh = eng.shape(info.targs[0], info.fr.subst)
    sh = eng.shape(info.targs[1], info.fr.subst)
    kind = "btree" if "BTree" in info.c["p"] else "hash"
    return one(st, empty_map(ksh, sh, kind))


def key1(eng, st, ksh, k):
    k = ld(eng, st, k)
    return encode(ksh, k, [])


@m("std::collections::HashSet::<T, S, A>::contains", doc="membership")
def _hs_contains(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, z3.Select(v.arr, key1(eng, st, v.sh, a[1])[0]))


@m("std::collections::HashSet::<T, S, A>::insert", doc="adds an element; true if it was new")
def _hs_insert(eng, st, a, info):
    v = eng.load(st, a[0])
    k = key1(eng, st, v.sh, a[1])[0]
    eng.assign(st, a[0], SetV(z3.Store(v.arr, k, z3.BoolVal(True)), v.sh))
    return one(st, z3.Not(z3.Select(v.arr, k)))


class EntryV:
    __slots__ = ("ptr", "k")

    def __init__(self, ptr, k):
        self.ptr, self.k = ptr, k


@m("std::collections::HashMap::<K, V, S, A>::entry", "std::collections::BTreeMap::<K, V, A>::entry", doc="entry of a key")
def _entry(eng, st, a, info):
    p = a[0]
    v = eng.load(st, p)
    if isinstance(v, Ptr):
        p, v = v, eng.load(st, v)
    return one(st, EntryV(p, key1(eng, st, v.ksh, a[1])))


def _or_insert(eng, st, e, mk):
    v = eng.load(st, e.ptr)
    res = []
    for s, present in fork(eng, st, v.has(e.k)):
        if present:
            res.append((s, eng.canon(e.ptr, ("m", e.k))))
        else:
            for s2, x in mk(s):
                facts = []
                ls = encode(v.sh, x, facts)
                s2.fact(*facts)
                w = eng.load(s2, e.ptr)
                eng.assign(s2, e.ptr, w.with_entry(e.k, ls))
                res.append((s2, eng.canon(e.ptr, ("m", e.k))))
    return res


@m("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with", doc="value of the key; inserted if absent")
def _oiw(eng, st, a, info):
    return _or_insert(eng, st, a[0], lambda s: eng.apply(s, a[1], []))


@m("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", doc="value of the key; inserted if absent")
def _oi(eng, st, a, info):
    return _or_insert(eng, st, a[0], lambda s: [(s, a[1])])


@m("std::collections::hash_map::Entry::<'a, K, V>::or_default", "std::collections::hash_map::Entry::<'a, K, V, A>::or_default", doc="value of the key; the default value inserted if absent")
def _od(eng, st, a, info):
    return _or_insert(eng, st, a[0], lambda s: [(s, default_sh(eng, s, eng.load(s, a[0].ptr).sh))])


@m("std::collections::HashMap::<K, V, S, A>::get", "std::collections::BTreeMap::<K, V, A>::get", doc="value of the key")
def _hm_get(eng, st, a, info):
    v = ld(eng, st, a[0])
    k = key1(eng, st, v.ksh, a[1])
    return [(s, some(v.get(k)) if p else none()) for s, p in fork(eng, st, v.has(k))]


@m("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::BTreeMap::<K, V, A>::insert", doc="sets the value of a key")
def _hm_insert(eng, st, a, info):
    v = eng.load(st, a[0])
    k = key1(eng, st, v.ksh, a[1])
    facts = []
    ls = encode(v.sh, a[2], facts)
    st.fact(*facts)
    old = EnumV("std::option::Option", z3.If(v.has(k), z3.IntVal(1), z3.IntVal(0)), {0: Agg("std::option::Option", []), 1: Agg("std::option::Option", [v.get(k)])})
    eng.assign(st, a[0], v.with_entry(k, ls))
    return one(st, old)


@m("std::collections::BTreeMap::<K, V, A>::remove", "std::collections::HashMap::<K, V, S, A>::remove", doc="removes the entry of a key")
def _bm_remove(eng, st, a, info):
    v = eng.load(st, a[0])
    k = key1(eng, st, v.ksh, a[1])
    res = []
    for s, p in fork(eng, st, v.has(k)):
        if p:
            eng.assign(s, a[0], v.without(k))
        res.append((s, some(v.get(k)) if p else none()))
    return res


@m("std::collections::BTreeMap::<K, V, A>::len", "std::collections::HashMap::<K, V, S, A>::len", doc="number of entries")
def _bm_len(eng, st, a, info):
    return one(st, ld(eng, st, a[0]).n)


def map_order(eng, st, v):
    """the entries of an ordered map in order: functions from position to the leaves of the key"""
    key = ("map order", v.dom.get_id(), zi(v.n).get_id())
    if key not in eng.cache:
        ks = [freshfn("mkey", I, s) for s in sorts(v.ksh)]
        pos = freshfn("mpos", *sorts(v.ksh), I)
        i, j = fresh("i", I), fresh("j", I)
        at = lambda x: [f(x) for f in ks]
        kv = [fresh("k", s) for s in sorts(v.ksh)]
        n = zi(v.n)
        fs = [n >= 0,
              z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(v.has(at(i)), pos(*at(i)) == i)), patterns=[f(i) for f in ks]),
              z3.ForAll(kv, z3.Implies(v.has(kv), z3.And(0 <= pos(*kv), pos(*kv) < n, *[a == b for a, b in zip(at(pos(*kv)), kv)])), patterns=[v.has(kv)])]
        if v.kind == "btree":
            x, y = decode(v.ksh, at(i)), decode(v.ksh, at(j))
            fs.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), lt(eng, st, x, y)), patterns=[z3.MultiPattern(ks[0](i), ks[0](j))]))
        eng.cache[key] = (ks, pos, fs)
        eng.cache[("keep", key)] = v
    ks, pos, fs = eng.cache[key]
    st.fact(*fs)
    return lambda x: [f(zi(x)) for f in ks]


def map_it(eng, st, v, what):
    at = map_order(eng, st, v)
    def el(k):
        ks = at(k)
        key, val = decode(v.ksh, list(ks)), v.get(ks)
        return key if what == "keys" else val if what == "values" else Agg("tuple", [key, val])
    return It(v.n, el, 0, (), {"map": v, "order": at})


@m("std::collections::BTreeMap::<K, V, A>::keys", "std::collections::HashMap::<K, V, S, A>::keys", doc="the keys, in order")
def _bm_keys(eng, st, a, info):
    return one(st, map_it(eng, st, ld(eng, st, a[0]), "keys"))


@m("std::collections::BTreeMap::<K, V, A>::values", "std::collections::HashMap::<K, V, S, A>::values", doc="the values, in order of their keys")
def _bm_vals(eng, st, a, info):
    return one(st, map_it(eng, st, ld(eng, st, a[0]), "values"))


@m("std::collections::BTreeMap::<K, V, A>::iter", "std::collections::HashMap::<K, V, S, A>::iter", doc="the entries, in order of their keys")
def _bm_iter(eng, st, a, info):
    return one(st, map_it(eng, st, ld(eng, st, a[0]), "entries"))


def _pop_end(which):
    def f(eng, st, a, info):
        v = eng.load(st, a[0])
        res = []
        for s, p in fork(eng, st, zi(v.n) > 0):
            if not p:
                res.append((s, none()))
                continue
            ks = map_order(eng, s, v)(0 if which == "first" else zi(v.n) - 1)
            # a removed entry was there
            eng.assign(s, a[0], v.without(ks))
            res.append((s, some(Agg("tuple", [decode(v.ksh, list(ks)), v.get(ks)]))))
        return res
    return f


m("std::collections::BTreeMap::<K, V, A>::pop_first", doc="removes the entry with the least key")(_pop_end("first"))
m("std::collections::BTreeMap::<K, V, A>::pop_last", doc="removes the entry with the greatest key")(_pop_end("last"))


def map_extend(eng, st, v, it, selects=False):
    """entries of an iterator added to a map; a later entry replaces an earlier one with the same key"""
    g = gen(eng, st, it)
    if has_filter(it):
        raise Unsupported("extend with a filtered iterator")
    assume_gen(st, g)
    if not is0(it.pos):
        raise Unsupported("extend with a used iterator")
    n = zi(it.n)
    kv = [fresh("k", s) for s in sorts(v.ksh)]
    IX = freshfn("from", *sorts(v.ksh), I)      # last position in the iterator of a key, or -1
    i, j = fresh("i", I), fresh("j", I)
    val = lambda x: val_at(g, x)
    keyat = lambda x: encode(v.ksh, val(x).f[0], [])
    fa = []
    valat = lambda x: encode(v.sh, val(x).f[1], fa)
    w = MapV(fresh("dom", v.dom.sort()), [fresh("map", a.sort()) for a in v.lv], v.ksh, v.sh, v.kind, fresh("n", I))
    eqk = lambda a, b: z3.And([x == y for x, y in zip(a, b)])
    sk = [freshfn("key_at", I, s) for s in sorts(v.ksh)]
    ap = [t for x in keyat(i) for t in eng.subterms(x) if z3.is_app(t) and t.decl().kind() in ((z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) if selects else (z3.Z3_OP_UNINTERPRETED,)) and t.num_args() > 0 and any(ch.eq(i) for ch in t.children())]
    seen, pats = set(), [sk[0](i)]
    for t in ap:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            pats.append(t)
    fs = [z3.ForAll([i], z3.And([f(i) == x for f, x in zip(sk, keyat(i))]), patterns=pats),
          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(IX(*[f(i) for f in sk]) >= i, w.has([f(i) for f in sk]))), patterns=[sk[0](i)]),
          z3.ForAll(kv, z3.And(IX(*kv) >= -1, IX(*kv) < n, z3.Implies(IX(*kv) >= 0, eqk([f(IX(*kv)) for f in sk], kv)), w.has(kv) == z3.Or(v.has(kv), IX(*kv) >= 0)), patterns=[IX(*kv)]),
          z3.ForAll(kv, w.has(kv) == z3.Or(v.has(kv), IX(*kv) >= 0), patterns=[w.has(kv)]),
          z3.ForAll(kv, z3.Implies(v.has(kv), w.has(kv)), patterns=[v.has(kv)]),
          zi(w.n) >= zi(v.n), zi(w.n) <= zi(v.n) + n]
    new = valat(IX(*kv))
    if fa:
        raise Unsupported("extend with subsequences")
    fs += [z3.ForAll(kv, msel(b, kv) == z3.If(IX(*kv) >= 0, x, msel(a, kv)), patterns=[msel(b, kv)]) for a, b, x in zip(v.lv, w.lv, new)]
    # as many entries more as there are new different keys: all of them if no two agree
    fs.append(z3.Implies(z3.And(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(eqk([f(i) for f in sk], [f(j) for f in sk]))), patterns=[z3.MultiPattern(sk[0](i), sk[0](j))]),
                                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(v.has([f(i) for f in sk]))), patterns=[sk[0](i)])),
                         zi(w.n) == zi(v.n) + n))
    st.fact(*fs)
    return w


@m("std::iter::Extend::extend", doc="adds all elements")
def _extend(eng, st, a, info):
    v = ld(eng, st, a[0])
    it = to_it(eng, st, a[1], info)
    if isinstance(v, MapV):
        eng.assign(st, a[0], map_extend(eng, st, v, it))
        return one(st, UNIT)
    if isinstance(v, SetV):
        return NotImplemented
    w = collect_seq(eng, st, it, "ext", v.sh if isinstance(v, SeqV) else None)
    eng.assign(st, a[0], concat(eng, st, v, w))
    return one(st, UNIT)


# ---------------------------------------------------------------- locks

@m("parking_lot::lock_api::RwLock::<R, T>::read", doc="shared access; deadlocks if this thread holds the lock for writing")
def _read(eng, st, a, info):
    v = ld(eng, st, a[0])
    if not isinstance(v, Guard):
        raise Unsupported("read of %s" % type(v).__name__)
    eng.oblige(st, z3.Not(z3.Select(st.store[HELD].arr, zi(v.id))), "lock to be read is not held by this thread in " + str(eng.curkey), "lock order")
    if eng.interference:
        interfere(eng, st, st.store[HELD].arr)
    x = eng.load(st, Ptr(HEAP, [("i", v.id)]))
    st.trace = st.trace + (("read", v.id, x),)
    return one(st, Guard(v.id, x))


@m("parking_lot::lock_api::RwLock::<R, T>::write", doc="exclusive access; deadlocks if this thread holds the lock")
def _write(eng, st, a, info):
    v = ld(eng, st, a[0])
    if not isinstance(v, Guard):
        raise Unsupported("write of %s" % type(v).__name__)
    h = st.store[HELD]
    eng.oblige(st, z3.Not(z3.Select(h.arr, zi(v.id))), "lock to be written is not held by this thread in " + str(eng.curkey), "lock order")
    st.fact(z3.Not(z3.Select(h.arr, zi(v.id))))
    if eng.interference:
        interfere(eng, st, h.arr)
    st.store[HELD] = SetV(z3.Store(h.arr, zi(v.id), z3.BoolVal(True)), h.sh)
    st.writes = st.writes | {(HELD, ())}
    st.trace = st.trace + (("acquire", v.id),)
    return one(st, Guard(v.id))


@m("parking_lot::lock_api::RwLock::<R, T>::get_mut", doc="the content, through an exclusive reference to the lock")
def _getmut(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, Ptr(HEAP, [("i", v.id)]))


@m("parking_lot::lock_api::RwLock::<R, T>::into_inner", doc="the content")
def _into_inner(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, eng.load(st, Ptr(HEAP, [("i", v.id)])))


@m("parking_lot::lock_api::RwLock::<R, T>::new", doc="a new lock, different from all existing ones")
def _rwnew(eng, st, a, info):
    i = fresh("lock", I)
    st.fact(*eng.freshlock(st, i))
    h = st.store[HEAP]
    facts = []
    st.store[HEAP] = upd(h, i, a[0], facts)
    st.writes = st.writes | {(HEAP, ())}
    st.fact(*facts, z3.Not(z3.Select(st.store[HELD].arr, i)))
    return one(st, Guard(i))


# ---------------------------------------------------------------- logging, progress (no observable effect assumed)

@m("log::max_level", doc="logging is off (log output is outside the properties)")
def _maxlevel(eng, st, a, info):
    return one(st, Opaque("log::LevelFilter"))


def _noop(eng, st, a, info):
    return one(st, UNIT)


for _n in ("progress_bar::ProgressBar::inc", "progress_bar::ProgressBar::finish", "traits::Progress::inc", "traits::Progress::finish"):
    m(_n, doc="progress output has no effect on data")(_noop)


@m("progress_bar::ProgressBar::new", doc="progress output has no effect on data")
def _pb(eng, st, a, info):
    return one(st, Opaque("ProgressBar"))


@m("rand::SeedableRng::seed_from_u64", "rand::SeedableRng::from_os_rng", doc="some random number generator")
def _seedrng(eng, st, a, info):
    return one(st, eng.arb(info.targs[0], info.fr.subst, "rng", st))


@m("std::intrinsics::discriminant_value", doc="variant")
def _dv(eng, st, a, info):
    return one(st, eng.discr(ld(eng, st, a[0])))


@m("std::convert::TryFrom::try_from", doc="(modelled per type)")
def _tf(eng, st, a, info):
    rp = (info.c.get("r") or {}).get("p", "")
    if "rand::distr::Uniform" in rp:
        r = ld(eng, st, a[0])
        lo, hi = (zi(x) for x in r.f[:2])
        closed = r.ty == "std::ops::RangeInclusive"
        return [(s, ok(Agg("rand::distr::Uniform", [lo, hi, closed])) if b else err(Opaque("rand::distr::uniform::Error"))) for s, b in fork(eng, st, lo <= hi if closed else lo < hi)]
    return NotImplemented


@m("rand::distr::Distribution::sample", doc="uniform distribution: any value in the range, whatever the generator")
def _sample(eng, st, a, info):
    d = ld(eng, st, a[0])
    if not (isinstance(d, Agg) and d.ty == "rand::distr::Uniform"):
        return NotImplemented
    u = fresh("sample", d.f[0].sort())
    st.fact(d.f[0] <= u, u <= d.f[1] if d.f[2] else u < d.f[1])
    return one(st, u)


@m("std::vec::Vec::<T, A>::retain", doc="keeps the elements for which the function returns true, in order")
def _retain(eng, st, a, info):
    v = ld(eng, st, a[0])
    it = seq_it(eng, st, v)
    it = it.with_(stages=it.stages + (("filter", a[1]),))
    r = collect_seq(eng, st, it, "kept", v.sh)
    eng.assign(st, a[0], r)
    return one(st, UNIT)


# ---------------------------------------------------------------- calls of function values
@m("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", doc="calls the function with the arguments in the tuple")
def _fncall(eng, st, a, info):
    f = a[0]
    while isinstance(f, Ptr):
        f = eng.load(st, f)
    return eng.apply(st, f, list(a[1].f))


# ---------------------------------------------------------------- strings: sequences of bytes
@m("std::string::String::len", "core::str::<impl str>::len", doc="number of bytes")
def _slen(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v.n) if isinstance(v, SeqV) else NotImplemented


@m("std::string::String::is_empty", "core::str::<impl str>::is_empty", doc="has no byte")
def _sempty(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, zi(v.n) == 0) if isinstance(v, SeqV) else NotImplemented


@m("std::string::String::as_bytes", "core::str::<impl str>::as_bytes", "std::string::String::as_str", doc="the same bytes")
def _sbytes(eng, st, a, info):
    v = ld(eng, st, a[0])
    return one(st, v) if isinstance(v, SeqV) else NotImplemented


@m("std::array::<impl [T; N]>::map", doc="applies the function to each element")
def _arrmap(eng, st, a, info):
    v = a[0]
    if not isinstance(v, Agg):
        return NotImplemented
    outs = [(st, [])]
    for x in v.f:
        outs = [(s2, l + [r]) for s, l in outs for s2, r in eng.apply(s, a[1], [x])]
    return [(s, Agg("array", l)) for s, l in outs]
