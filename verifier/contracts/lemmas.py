"""Lemmas about the defined functions, each proven by induction (the obligations are discharged on every run)."""
from contracts.common import *

LEMMAS = {}
PROOFS = []     # (name, facts, goal)


def lemma_sum_cong(a, b, lo, hi):
    """equal terms, equal sums"""
    k = fresh("k", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k)]),
                      SUM(a, zi(lo), zi(hi)) == SUM(b, zi(lo), zi(hi)))


LEMMAS["sum_cong"] = lemma_sum_cong


def prove_sum_cong():
    a, b = z3.Consts("a b", z3.ArraySort(I, R))
    lo, hi = z3.Ints("lo hi")
    base = ([sum_def(a, lo, hi), sum_def(b, lo, hi), hi <= lo], lemma_sum_cong(a, b, lo, hi))
    step = ([sum_def(a, lo, hi), sum_def(b, lo, hi), hi > lo, lemma_sum_cong(a, b, lo, hi - 1)], lemma_sum_cong(a, b, lo, hi))
    return [("sum_cong, base",) + base, ("sum_cong, step",) + step]


PROOFS += prove_sum_cong()


def lemma_mean(s, n):
    """multiplying by the inverse and then by the number gives the number back"""
    return z3.Implies(n != 0, z3.And((s * (z3.RealVal(1) / n)) * n == s, ((z3.RealVal(1) / n) * s) * n == s, (s / n) * n == s))


LEMMAS["mean"] = lemma_mean
_s, _n = z3.Reals("s n")
PROOFS.append(("mean", [], lemma_mean(_s, _n)))


AR = z3.ArraySort(I, R)
AI = z3.ArraySort(I, I)


def lemma_sum_const(b, n, s):
    """n terms with n*term = s add up to s"""
    k = fresh("k", I)
    return z3.Implies(z3.And(n >= 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(b, k) * z3.ToReal(n) == s), patterns=[z3.Select(b, k)])),
                      SUM(b, z3.IntVal(0), n) == s)


LEMMAS["sum_const"] = lemma_sum_const


def prove_sum_const():
    b, n, s = z3.Const("b", AR), z3.Int("n"), z3.Real("s")
    j, k = z3.Int("j"), fresh("k", I)
    rn = z3.Real("rn")
    hyp = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(b, k) * rn == s), patterns=[z3.Select(b, k)])
    # by induction on j: SUM(b, 0, j) * n = j * s
    base = ([sum_def(b, 0, 0)], SUM(b, z3.IntVal(0), z3.IntVal(0)) * rn == 0 * s)
    step = ([hyp, 0 <= j, j < n, sum_def(b, 0, j + 1), SUM(b, z3.IntVal(0), j) * rn == z3.ToReal(j) * s],
            SUM(b, z3.IntVal(0), j + 1) * rn == z3.ToReal(j + 1) * s)
    fin = ([n >= 1, rn == z3.ToReal(n), SUM(b, z3.IntVal(0), n) * rn == z3.ToReal(n) * s], SUM(b, z3.IntVal(0), n) == s)
    return [("sum_const, base",) + base, ("sum_const, step",) + step, ("sum_const, conclusion",) + fin]


PROOFS += prove_sum_const()


def lemma_point(a0, a1, n, p):
    """changing one term changes the sum by the difference"""
    k = fresh("k", I)
    return z3.Implies(z3.And(0 <= p, p < n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, k != p), z3.Select(a1, k) == z3.Select(a0, k)), patterns=[z3.Select(a1, k)])),
                      SUM(a1, z3.IntVal(0), n) == SUM(a0, z3.IntVal(0), n) + z3.Select(a1, p) - z3.Select(a0, p))


def prove_point():
    a0, a1 = z3.Consts("a0 a1", AR)
    n, p = z3.Ints("n p")
    d = [sum_def(a0, 0, n), sum_def(a1, 0, n)]
    # n = p + 1: the rest is equal; n > p + 1: induction
    return [("point, base", d + [n == p + 1, lemma_sum_cong(a1, a0, 0, n - 1)], lemma_point(a0, a1, n, p)),
            ("point, step", d + [n > p + 1, lemma_point(a0, a1, n - 1, p)], lemma_point(a0, a1, n, p))]


PROOFS += prove_point()


def lemma_total(a0, a1, n, m, b0, b1, cnt):
    """if only the terms with indices m[0..cnt) (distinct) change, the sum changes by the sum over these"""
    k, i, j = fresh("k", I), fresh("i", I), fresh("j", I)
    w = z3.Function("member_at!%d" % V_next(), I, I)
    hyp = [cnt >= 0,
           z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), z3.And(0 <= z3.Select(m, j), z3.Select(m, j) < n, z3.Select(b0, j) == z3.Select(a0, z3.Select(m, j)), z3.Select(b1, j) == z3.Select(a1, z3.Select(m, j)))), patterns=[z3.Select(m, j)]),
           z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), z3.Select(m, i) != z3.Select(m, j)), patterns=[z3.MultiPattern(z3.Select(m, i), z3.Select(m, j))]),
           z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Or(z3.Select(a1, k) == z3.Select(a0, k), z3.Exists([j], z3.And(0 <= j, j < cnt, z3.Select(m, j) == k)))), patterns=[z3.Select(a1, k)])]
    return z3.Implies(z3.And(hyp), SUM(a1, z3.IntVal(0), n) - SUM(a0, z3.IntVal(0), n) == SUM(b1, z3.IntVal(0), cnt) - SUM(b0, z3.IntVal(0), cnt))


def V_next():
    import values
    values._n[0] += 1
    return values._n[0]


LEMMAS["total"] = lemma_total


def prove_total():
    a0, a1, b0, b1, bx = z3.Consts("a0 a1 b0 b1 bx", AR)
    m = z3.Const("m", AI)
    n, c = z3.Ints("n c")
    d = [sum_def(b0, 0, c), sum_def(b1, 0, c)]
    base = (d + [c <= 0, lemma_sum_cong(a1, a0, 0, n)], lemma_total(a0, a1, n, m, b0, b1, c))
    # step: undo the last member, use the induction hypothesis, redo it
    last = z3.Select(m, c - 1)
    ax = z3.Store(a1, last, z3.Select(a0, last))
    k = fresh("k", I)
    step = (d + [c > 0, lemma_total(a0, ax, n, m, b0, b1, c - 1), lemma_point(ax, a1, n, last)], lemma_total(a0, a1, n, m, b0, b1, c))
    return [("total, base",) + base, ("total, step",) + step]


PROOFS += prove_total()


AB = z3.ArraySort(I, B)


def lemma_cnt_cong(a, b, lo, hi):
    """equal predicates, equal counts"""
    k = fresh("k", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(hi)), z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k)]),
                      CNT(a, zi(lo), zi(hi)) == CNT(b, zi(lo), zi(hi)))


LEMMAS["cnt_cong"] = lemma_cnt_cong


def prove_cnt_cong():
    a, b = z3.Consts("a b", AB)
    lo, hi = z3.Ints("lo hi")
    base = ([cnt_def(a, lo, hi), cnt_def(b, lo, hi), hi <= lo], lemma_cnt_cong(a, b, lo, hi))
    step = ([cnt_def(a, lo, hi), cnt_def(b, lo, hi), hi > lo, lemma_cnt_cong(a, b, lo, hi - 1)], lemma_cnt_cong(a, b, lo, hi))
    return [("cnt_cong, base",) + base, ("cnt_cong, step",) + step]


PROOFS += prove_cnt_cong()


def lemma_sum_scale(b, a, s, n):
    """a common factor can be taken out of a sum"""
    k = fresh("k", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(n)), z3.Select(b, k) == s * z3.Select(a, k)), patterns=[z3.Select(b, k)]),
                      SUM(b, z3.IntVal(0), zi(n)) == s * SUM(a, z3.IntVal(0), zi(n)))


LEMMAS["sum_scale"] = lemma_sum_scale


def prove_sum_scale():
    a, b = z3.Consts("a b", AR)
    s, n = z3.Real("s"), z3.Int("n")
    d = [sum_def(a, 0, n), sum_def(b, 0, n)]
    return [("sum_scale, base", d + [n <= 0], lemma_sum_scale(b, a, s, n)),
            ("sum_scale, step", d + [n > 0, lemma_sum_scale(b, a, s, n - 1)], lemma_sum_scale(b, a, s, n))]


PROOFS += prove_sum_scale()


# two lists in the same (total) order that hold the same elements are equal
_E = z3.DeclareSort("Element")
_LE = z3.Function("le_Element", _E, _E, B)
AE = z3.ArraySort(I, _E)


def sorted_perm(s, t, pi, inv, lo, n):
    """both lists are in descending order on [lo, n), and pi is a bijection that maps s to t there"""
    i, j = fresh("i", I), fresh("j", I)
    ij = z3.And(lo <= i, i <= j, j < n)
    r = z3.And(lo <= i, i < n)
    return z3.And(
        FA([i, j], z3.Implies(ij, _LE(z3.Select(s, j), z3.Select(s, i))), [z3.Select(s, i), z3.Select(s, j)]),
        FA([i, j], z3.Implies(ij, _LE(z3.Select(t, j), z3.Select(t, i))), [z3.Select(t, i), z3.Select(t, j)]),
        FA([i], z3.Implies(r, z3.And(lo <= z3.Select(pi, i), z3.Select(pi, i) < n, z3.Select(inv, z3.Select(pi, i)) == i, z3.Select(s, i) == z3.Select(t, z3.Select(pi, i)))), [z3.Select(pi, i)]),
        FA([i], z3.Implies(r, z3.And(lo <= z3.Select(inv, i), z3.Select(inv, i) < n, z3.Select(pi, z3.Select(inv, i)) == i)), [z3.Select(inv, i)]))


def lemma_sorted_unique(s, t, pi, inv, lo, n):
    i = fresh("i", I)
    return z3.Implies(sorted_perm(s, t, pi, inv, lo, n), FA([i], z3.Implies(z3.And(lo <= i, i < n), z3.Select(s, i) == z3.Select(t, i)), [z3.Select(s, i)]))


def prove_sorted_unique():
    s, t = z3.Consts("s t", AE)
    pi, inv = z3.Consts("pi inv", AI)
    lo, n = z3.Ints("lo n")
    x, y, i = z3.Const("x", _E), z3.Const("y", _E), z3.Int("i")
    anti = FA([x, y], z3.Implies(z3.And(_LE(x, y), _LE(y, x)), x == y), [_LE(x, y), _LE(y, x)])
    z = z3.Const("z", _E)
    # drop the first elements; the bijection is redirected around them
    p0, i0 = z3.Select(pi, lo), z3.Select(inv, lo)
    pi2, inv2 = z3.Store(pi, i0, p0), z3.Store(inv, p0, i0)
    hyp = sorted_perm(s, t, pi, inv, lo, n)
    first = z3.Select(s, lo) == z3.Select(t, lo)
    return [("sorted_unique, base", [lo >= n], lemma_sorted_unique(s, t, pi, inv, lo, n)),
            ("sorted_unique, first", [anti, lo < n, hyp, z3.Select(s, i0) == z3.Select(t, z3.Select(pi, i0))], first),
            ("sorted_unique, rest", [lo < n, hyp, first], sorted_perm(s, t, pi2, inv2, lo + 1, n)),
            ("sorted_unique, step", [lo < n, first, sorted_perm(s, t, pi2, inv2, lo + 1, n), lemma_sorted_unique(s, t, pi2, inv2, lo + 1, n)],
             lemma_sorted_unique(s, t, pi, inv, lo, n))]


PROOFS += prove_sorted_unique()


def prove_start():
    from contracts.io import prove_start as p
    return p()


PROOFS += prove_start()
