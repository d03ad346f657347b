"""Shared vocabulary of the contracts."""
import z3
from values import *
from engine import *
import models
from models import SUM, CNT


def sum_def(a, lo, hi):
    """definition of SUM at [lo, hi): empty, and unfolding of the last term"""
    lo, hi = zi(lo), zi(hi)
    return z3.And(z3.Implies(hi <= lo, SUM(a, lo, hi) == 0),
                  z3.Implies(hi > lo, SUM(a, lo, hi) == SUM(a, lo, hi - 1) + z3.Select(a, hi - 1)))


def cnt_def(a, lo, hi):
    lo, hi = zi(lo), zi(hi)
    return z3.And(z3.Implies(hi <= lo, CNT(a, lo, hi) == 0),
                  z3.Implies(hi > lo, CNT(a, lo, hi) == CNT(a, lo, hi - 1) + z3.If(z3.Select(a, hi - 1), z3.IntVal(1), z3.IntVal(0))))


def wn(v):
    """number of weights"""
    x = v.f[0]
    return zi(x.n) if isinstance(x, SeqV) else z3.IntVal(1)


def wk(v, k):
    """k-th weight"""
    x = v.f[0]
    return sel(x, k) if isinstance(x, SeqV) else x


def lock_of(events, i):
    """lock identity of event i"""
    return zi(sel(events, i).f[EV_LOCK].id)


EV_ID, EV_LOCK, EV_OUT = 0, 1, 2


def patternable(x):
    """without conditionals, which solvers do not match"""
    return not (z3.is_app(x) and (x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_STORE) or any(not patternable(c) for c in x.children()))) and not z3.is_quantifier(x)


def FA(vs, body, pats):
    """for all, with a pattern where it is possible"""
    if all(patternable(p) for p in pats):
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
    return z3.ForAll(vs, body)


def FAany(vs, body, pats):
    """for all, with alternative patterns"""
    ps = [p for p in pats if patternable(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def forall(n, f, pats=None, lo=0):
    """forall k in [lo, n): f(k)"""
    k = fresh("k", I)
    body = z3.Implies(z3.And(zi(lo) <= k, k < zi(n)), f(k))
    if pats:
        p = pats(k)
        p = p if isinstance(p, list) else [p]
        return z3.And([FA([k], body, [x]) for x in p])
    return z3.ForAll([k], body)


def forall2(n, f, pats=None):
    """forall i < j < n: f(i, j)"""
    i, j = fresh("i", I), fresh("j", I)
    body = z3.Implies(z3.And(0 <= i, i < j, j < zi(n)), f(i, j))
    return FA([i, j], body, pats(i, j)) if pats else z3.ForAll([i, j], body)


def ghost(name, f, pat=None, sort=R):
    """ghost array defined by f: (array, definitional facts)"""
    a = fresh(name, z3.ArraySort(I, sort))
    i = fresh("i", I)
    body = z3.Select(a, i) == f(i)
    d = [z3.ForAll([i], body, patterns=[z3.Select(a, i)])]
    if pat:
        d.append(z3.ForAll([i], body, patterns=[pat(i)]))
    return a, d
