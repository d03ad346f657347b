"""distance.rs: the event distance is the sum over particle types of the optimal pairing distance."""
from contracts.common import *
from contracts import lemmas as LM
from contracts.lemmas import LEMMAS
from contracts.building import pidval
from contracts.fourvec import fields
from models import SQRT

AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
FV = "four_vector::FourVector"
EU = "distance::EuclWithScaledPt::"
SM = "distance::SquareMatrix"
S = z3.Select

# momenta and lists of momenta
MOMS = z3.DeclareSort("Momentum")
AM = z3.ArraySort(I, MOMS)
MOM = z3.Function("momentum", *([R] * 5), MOMS)                 # transverse momentum and the four components
LST = z3.Function("momenta", *([AR] * 5), AM)
ZEROM = MOM(*[z3.RealVal(0)] * 5)
EMPTY = z3.K(I, ZEROM)

# ---------------------------------------------------------------- definitions
PDF = z3.Function("momentum_distance", R, MOMS, MOMS, R)        # tau, p, q
PARR = z3.Function("pair_distances", R, AM, AM, AR)             # distance of the i-th momenta
NARR = z3.Function("norms", R, AM, AR)                          # distance of the i-th momentum from zero
PADL = z3.Function("padded", AM, I, AM)                         # with zeros from position n
ARRG = z3.Function("arranged", AM, AI, AM)                      # elements in another order
MPN = z3.Function("min_pairing", R, AM, AM, I, R)               # least total distance over all arrangements of the first list
OPI = z3.Function("optimal", R, AM, AM, I, AI)                  # an arrangement with that distance, and its inverse
OIN = z3.Function("optimal_inv", R, AM, AM, I, AI)
SD = z3.Function("set_distance", R, AM, I, AM, I, R)
RANK = z3.Function("rank", AM, I, I)                            # number of distinct arrangements lexicographically before this one
SAME = z3.Function("same_multiset", AM, AM, I, B)
MSP = z3.Function("same_by", AM, AM, I, AI)
MSI = z3.Function("same_by_inv", AM, AM, I, AI)


def pd_expr(tau, p, q):
    """the distance of two momenta (pt, E, x, y, z)"""
    s = z3.RealVal(0)
    for a, b in zip(p[2:], q[2:]):
        s = s + (a - b) * (a - b)
    d = tau * (p[0] - q[0])
    return SQRT(s + d * d)


def pdef(tau, p, q):
    return PDF(tau, MOM(*p), MOM(*q)) == pd_expr(tau, p, q)


def defs():
    """definitions of the functions of lists"""
    tau, P, Q, i, n, pi = z3.Real("tau!d"), z3.Const("P!d", AM), z3.Const("Q!d", AM), z3.Int("i!d"), z3.Int("n!d"), z3.Const("pi!d", AI)
    return [FA([tau, P, Q, i], S(PARR(tau, P, Q), i) == PDF(tau, S(P, i), S(Q, i)), [S(PARR(tau, P, Q), i)]),
            FA([tau, P, i], S(NARR(tau, P), i) == PDF(tau, S(P, i), ZEROM), [S(NARR(tau, P), i)]),
            FA([P, n, i], S(PADL(P, n), i) == z3.If(i < n, S(P, i), ZEROM), [S(PADL(P, n), i)]),
            FA([P, pi, i], S(ARRG(P, pi), i) == S(P, S(pi, i)), [S(ARRG(P, pi), i)])]


def lstdef(lv):
    """the list with these components"""
    i = fresh("i", I)
    L = LST(*lv)
    pats = [S(L, i)] + [S(a, i) for a in lv]
    return FAany([i], S(L, i) == MOM(*[S(a, i) for a in lv]), pats)


def PAIR(tau, P, Q, n):
    return SUM(PARR(tau, P, Q), z3.IntVal(0), zi(n))


def NORM(tau, P, n):
    return SUM(NARR(tau, P), z3.IntVal(0), zi(n))


def bij(pi, inv, n):
    i = fresh("i", I)
    n = zi(n)
    r = z3.And(0 <= i, i < n)
    a, b = S(pi, i), S(inv, i)
    return z3.And(FA([i], z3.Implies(r, z3.And(0 <= a, a < n, S(inv, a) == i)), [a]),
                  FA([i], z3.Implies(r, z3.And(0 <= b, b < n, S(pi, b) == i)), [b]))


def att(tau, P, Q, n):
    """definition, part 1: the minimum is attained (there are finitely many arrangements)"""
    n = zi(n)
    o, oi = OPI(tau, P, Q, n), OIN(tau, P, Q, n)
    return z3.Implies(n >= 0, z3.And(bij(o, oi, n), MPN(tau, P, Q, n) == PAIR(tau, ARRG(P, o), Q, n)))


def least(tau, P, Q, n, pi, inv):
    """definition, part 2: no arrangement is better"""
    n = zi(n)
    return z3.Implies(z3.And(n >= 0, bij(pi, inv, n)), MPN(tau, P, Q, n) <= PAIR(tau, ARRG(P, pi), Q, n))


def sddef(tau, P, n1, Q, n2):
    """definition: the distance of two sets of momenta, the smaller padded with zeros"""
    n1, n2 = zi(n1), zi(n2)
    return SD(tau, P, n1, Q, n2) == z3.If(n1 <= n2, MPN(tau, PADL(P, n1), Q, n2), MPN(tau, PADL(Q, n2), P, n1))


def samedef(P, Q, n):
    """definition: one list is an arrangement of the other"""
    n = zi(n)
    return z3.Implies(SAME(P, Q, n), arrangement(P, Q, MSP(P, Q, n), MSI(P, Q, n), n))


def same_intro(P, Q, n, pi, inv):
    return z3.Implies(arrangement(P, Q, pi, inv, n), SAME(P, Q, zi(n)))


def arrangement(T, P, pi, inv, n):
    i = fresh("i", I)
    n = zi(n)
    return z3.And(n >= 0, bij(pi, inv, n), FAany([i], z3.Implies(z3.And(0 <= i, i < n), S(T, i) == S(P, S(pi, i))), [S(T, i), S(pi, i)]))


def equal_on(P, Q, n):
    i = fresh("i", I)
    return FAany([i], z3.Implies(z3.And(0 <= i, i < zi(n)), S(P, i) == S(Q, i)), [S(P, i), S(Q, i)])


def comp(f, g):
    """array i -> f[g[i]] and its definition"""
    a = fresh("comp", AI)
    i = fresh("i", I)
    return a, [FA([i], S(a, i) == S(f, S(g, i)), [S(a, i)])]


def ident():
    a = fresh("id", AI)
    i = fresh("i", I)
    return a, FA([i], S(a, i) == i, [S(a, i)])


PROOFS = []


# ---------------------------------------------------------------- lemmas
def lemma_sum_perm(b, a, pi, inv, n):
    """a sum does not depend on the order of its terms"""
    i = fresh("i", I)
    return z3.Implies(z3.And(n >= 0, bij(pi, inv, n), FA([i], z3.Implies(z3.And(0 <= i, i < n), S(b, i) == S(a, S(pi, i))), [S(b, i)])),
                      SUM(b, z3.IntVal(0), n) == SUM(a, z3.IntVal(0), n))


def prove_sum_perm():
    a, b = z3.Consts("a b", AR)
    pi, inv = z3.Consts("pi inv", AI)
    n = z3.Int("n")
    m = n - 1
    j0, p0 = S(inv, m), S(pi, m)
    # exchange the terms at j0 (which is a[n-1]) and n-1
    b1 = z3.Store(b, j0, S(b, m))
    b2 = z3.Store(b1, m, S(a, m))
    pi2, inv2 = z3.Store(pi, j0, p0), z3.Store(inv, p0, j0)
    i = fresh("i", I)
    given = FA([i], z3.Implies(z3.And(0 <= i, i < n), S(b, i) == S(a, S(pi, i))), [S(b, i)])
    hyp = [n > 0, bij(pi, inv, n), given, S(b, j0) == S(a, S(pi, j0)), S(b, m) == S(a, S(pi, m))]
    same = SUM(b2, z3.IntVal(0), n) == SUM(b, z3.IntVal(0), n)
    rest = z3.And(bij(pi2, inv2, m), FA([i], z3.Implies(z3.And(0 <= i, i < m), S(b2, i) == S(a, S(pi2, i))), [S(b2, i)]))
    return [("sum_perm, base", [n <= 0, sum_def(a, 0, n), sum_def(b, 0, n)], lemma_sum_perm(b, a, pi, inv, n)),
            ("sum_perm, exchange", hyp + [LM.lemma_point(b, b1, n, j0), LM.lemma_point(b1, b2, n, m)], same),
            ("sum_perm, rest", hyp, rest),
            ("sum_perm, step", hyp + [same, rest, sum_def(a, 0, n), sum_def(b2, 0, n), lemma_sum_perm(b2, a, pi2, inv2, m)], lemma_sum_perm(b, a, pi, inv, n))]


PROOFS += prove_sum_perm()


def lemma_zeros(a, lo, c, m):
    """terms that are zero do not matter"""
    u = fresh("u", I)
    return z3.Implies(z3.And(lo <= c, c <= m, FA([u], z3.Implies(z3.And(c <= u, u < m), S(a, u) == 0), [S(a, u)])), SUM(a, lo, m) == SUM(a, lo, c))


def prove_zeros():
    a = z3.Const("a", AR)
    lo, c, m = z3.Ints("lo c m")
    return [("sum_zeros, base", [m <= c], lemma_zeros(a, lo, c, m)),
            ("sum_zeros, step", [m > c, sum_def(a, lo, m), lemma_zeros(a, lo, c, m - 1)], lemma_zeros(a, lo, c, m))]


PROOFS += prove_zeros()


def lemma_sparse(a, T, X, c, lo, cut, hi, m):
    """if only the terms at T[0] < T[1] < ... can differ from zero, the sum is the sum over these"""
    k, l, u = fresh("k", I), fresh("l", I), fresh("u", I)
    return z3.Implies(z3.And(lo <= cut, cut <= hi, m >= 0,
                             FA([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(cut <= S(T, k), S(T, k) < hi, S(a, S(T, k)) == S(c, k))), [S(T, k)]),
                             FA([k, l], z3.Implies(z3.And(0 <= k, k < l, l < m), S(T, k) < S(T, l)), [S(T, k), S(T, l)]),
                             FA([u], z3.Implies(z3.And(cut <= u, u < hi), z3.Or(S(a, u) == 0, z3.And(0 <= S(X, u), S(X, u) < m, S(T, S(X, u)) == u))), [S(a, u)])),
                      SUM(a, lo, hi) == SUM(a, lo, cut) + SUM(c, z3.IntVal(0), m))


def prove_sparse():
    a, c = z3.Consts("a c", AR)
    T, X = z3.Consts("T X", AI)
    lo, cut, hi, m = z3.Ints("lo cut hi m")
    last = S(T, m - 1)
    return [("sum_sparse, base", [m <= 0, sum_def(c, 0, m), lemma_zeros(a, lo, cut, hi)], lemma_sparse(a, T, X, c, lo, cut, hi, m)),
            ("sum_sparse, step", [m > 0, sum_def(c, 0, m), lemma_zeros(a, lo, last + 1, hi), sum_def(a, lo, last + 1), lemma_sparse(a, T, X, c, lo, cut, last, m - 1)],
             lemma_sparse(a, T, X, c, lo, cut, hi, m))]


PROOFS += prove_sparse()
_tau, _n = z3.Real("tau"), z3.Int("n")
_P, _Q, _T = z3.Consts("P Q T", AM)
_pi, _inv = z3.Consts("pi inv", AI)


def lemma_pair_cong(tau, P, P2, Q, Q2, n):
    return z3.Implies(z3.And(equal_on(P, P2, n), equal_on(Q, Q2, n)), PAIR(tau, P, Q, n) == PAIR(tau, P2, Q2, n))


def prove_pair_cong():
    P2, Q2 = z3.Consts("P2 Q2", AM)
    return [("pair_cong", defs() + [LEMMAS["sum_cong"](PARR(_tau, _P, _Q), PARR(_tau, P2, Q2), 0, _n)], lemma_pair_cong(_tau, _P, P2, _Q, Q2, _n))]


PROOFS += prove_pair_cong()


def lemma_least(tau, T, P, Q, n, pi, inv):
    """no arrangement is better than the minimum"""
    n = zi(n)
    return z3.Implies(arrangement(T, P, pi, inv, n), MPN(tau, P, Q, n) <= PAIR(tau, T, Q, n))


def prove_least():
    x = ARRG(_P, _pi)
    return [("least", defs() + [arrangement(_T, _P, _pi, _inv, _n), least(_tau, _P, _Q, _n, _pi, _inv), lemma_pair_cong(_tau, _T, x, _Q, _Q, _n)],
             MPN(_tau, _P, _Q, _n) <= PAIR(_tau, _T, _Q, _n))]


PROOFS += prove_least()


def lemma_mp_perm(tau, T, P, Q, n, pi, inv):
    """the order of the first list does not matter"""
    n = zi(n)
    return z3.Implies(arrangement(T, P, pi, inv, n), MPN(tau, T, Q, n) == MPN(tau, P, Q, n))


def prove_mp_perm():
    tau, n, P, Q, T, pi, inv = _tau, _n, _P, _Q, _T, _pi, _inv
    hyp = [arrangement(T, P, pi, inv, n)] + defs()
    o, oi = OPI(tau, P, Q, n), OIN(tau, P, Q, n)
    s, d1 = comp(inv, o)
    si, d2 = comp(oi, pi)
    le = MPN(tau, T, Q, n) <= MPN(tau, P, Q, n)
    o2, oi2 = OPI(tau, T, Q, n), OIN(tau, T, Q, n)
    u, d3 = comp(pi, o2)
    ui, d4 = comp(oi2, inv)
    ge = MPN(tau, P, Q, n) <= MPN(tau, T, Q, n)
    b1, b2 = bij(s, si, n), bij(u, ui, n)
    e1, e2 = equal_on(ARRG(T, s), ARRG(P, o), n), equal_on(ARRG(P, u), ARRG(T, o2), n)
    return [("mp_perm, arrangement 1", [n >= 0, bij(pi, inv, n), bij(o, oi, n)] + d1 + d2, b1),
            ("mp_perm, same 1", hyp + d1 + [att(tau, P, Q, n)], e1),
            ("mp_perm, at most", [n >= 0, b1, e1, att(tau, P, Q, n), least(tau, T, Q, n, s, si), lemma_pair_cong(tau, ARRG(T, s), ARRG(P, o), Q, Q, n)], le),
            ("mp_perm, arrangement 2", [n >= 0, bij(pi, inv, n), bij(o2, oi2, n)] + d3 + d4, b2),
            ("mp_perm, same 2", [arrangement(T, P, pi, inv, n), defs()[3]] + d3 + [n >= 0, bij(o2, oi2, n)], e2),
            ("mp_perm, at least", [n >= 0, b2, e2, att(tau, T, Q, n), least(tau, P, Q, n, u, ui), lemma_pair_cong(tau, ARRG(P, u), ARRG(T, o2), Q, Q, n)], ge),
            ("mp_perm", [le, ge], MPN(tau, T, Q, n) == MPN(tau, P, Q, n))]


PROOFS += prove_mp_perm()


def lemma_mp_cong(tau, P, P2, Q, n):
    """lists that agree on the first n elements"""
    n = zi(n)
    return z3.Implies(z3.And(n >= 0, equal_on(P, P2, n)), MPN(tau, P, Q, n) == MPN(tau, P2, Q, n))


def prove_mp_cong():
    a, d = ident()
    return [("mp_cong, arrangement", [d, _n >= 0, equal_on(_T, _P, _n)], arrangement(_T, _P, a, a, _n)),
            ("mp_cong", [z3.Implies(equal_on(_T, _P, _n), arrangement(_T, _P, a, a, _n)), lemma_mp_perm(_tau, _T, _P, _Q, _n, a, a)], z3.Implies(equal_on(_T, _P, _n), MPN(_tau, _T, _Q, _n) == MPN(_tau, _P, _Q, _n)))]


PROOFS += prove_mp_cong()


def pd_sym(tau):
    p, q = z3.Consts("p!s q!s", MOMS)
    return FA([p, q], PDF(tau, p, q) == PDF(tau, q, p), [PDF(tau, p, q)])


def pd_nn(tau):
    p, q = z3.Consts("p!s q!s", MOMS)
    return FA([p, q], PDF(tau, p, q) >= 0, [PDF(tau, p, q)])


def pd_zero(tau):
    p = z3.Const("p!s", MOMS)
    return FA([p], PDF(tau, p, p) == 0, [PDF(tau, p, p)])


def prove_pd():
    """every momentum has components, so it is enough to show these for MOM(..)"""
    root = z3.Real("x")
    sq = z3.ForAll([root], z3.Implies(root >= 0, z3.And(SQRT(root) >= 0, SQRT(root) * SQRT(root) == root)), patterns=[SQRT(root)])
    X, Y = list(z3.Reals("x0 x1 x2 x3 x4")), list(z3.Reals("y0 y1 y2 y3 y4"))
    arg = pd_expr(_tau, X, Y).arg(0)
    rx = z3.Real("rx")
    return [("momentum distance: symmetric", [pdef(_tau, X, Y), pdef(_tau, Y, X)], PDF(_tau, MOM(*X), MOM(*Y)) == PDF(_tau, MOM(*Y), MOM(*X))),
            ("momentum distance: sum of squares", [], arg >= 0),
            ("momentum distance: not negative", [sq, arg >= 0, pdef(_tau, X, Y)], PDF(_tau, MOM(*X), MOM(*Y)) >= 0),
            ("momentum distance: zero root", [sq, rx == SQRT(z3.RealVal(0)), rx * rx == 0], rx == 0),
            ("momentum distance: zero for the same momentum", [SQRT(z3.RealVal(0)) == 0, pdef(_tau, X, X)], PDF(_tau, MOM(*X), MOM(*X)) == 0)]


PROOFS += prove_pd()


def lemma_mp_sym(tau, P, Q, n):
    n = zi(n)
    return z3.Implies(n >= 0, MPN(tau, P, Q, n) == MPN(tau, Q, P, n))


def prove_mp_sym():
    """the minimum is the same with the lists exchanged"""
    tau, n, P, Q = _tau, _n, _P, _Q
    o, oi = OPI(tau, P, Q, n), OIN(tau, P, Q, n)
    a, b = PARR(tau, ARRG(P, o), Q), PARR(tau, ARRG(Q, oi), P)
    i = fresh("i", I)
    terms = FA([i], z3.Implies(z3.And(0 <= i, i < n), S(a, i) == S(b, S(o, i))), [S(a, i)])
    le = lambda A, C: z3.Implies(n >= 0, MPN(tau, A, C, n) <= MPN(tau, C, A, n))
    return [("mp_sym, terms", defs() + [pd_sym(tau), n >= 0, att(tau, P, Q, n)], terms),
            ("mp_sym, one way", [terms, att(tau, P, Q, n), lemma_sum_perm(a, b, o, oi, n), least(tau, Q, P, n, oi, o)], le(Q, P)),
            ("mp_sym", [le(P, Q), le(Q, P)], lemma_mp_sym(tau, P, Q, n))]


PROOFS += prove_mp_sym()


def lemma_sum_nn(a, n):
    k = fresh("k", I)
    return z3.Implies(FA([k], z3.Implies(z3.And(0 <= k, k < n), S(a, k) >= 0), [S(a, k)]), SUM(a, z3.IntVal(0), n) >= 0)


def prove_sum_nn():
    a = z3.Const("a", AR)
    return [("sum_nn, base", [_n <= 0, sum_def(a, 0, _n)], lemma_sum_nn(a, _n)), ("sum_nn, step", [_n > 0, sum_def(a, 0, _n), lemma_sum_nn(a, _n - 1)], lemma_sum_nn(a, _n))]


PROOFS += prove_sum_nn()


def lemma_mp_nn(tau, P, Q, n):
    n = zi(n)
    return z3.Implies(n >= 0, MPN(tau, P, Q, n) >= 0)


PROOFS.append(("min_pairing: not negative", defs() + [pd_nn(_tau), att(_tau, _P, _Q, _n), lemma_sum_nn(PARR(_tau, ARRG(_P, OPI(_tau, _P, _Q, _n)), _Q), _n)], lemma_mp_nn(_tau, _P, _Q, _n)))


def lemma_mp_zero(tau, P, n):
    n = zi(n)
    return z3.Implies(n >= 0, MPN(tau, P, P, n) == 0)


def prove_mp_zero():
    a, d = ident()
    Z = PARR(_tau, _P, _P)
    return [("min_pairing: zero for the same momenta, arrangement", [d, _n >= 0], arrangement(_P, _P, a, a, _n)),
            ("min_pairing: zero for the same momenta", defs() + [pd_zero(_tau), _n >= 0, arrangement(_P, _P, a, a, _n), lemma_least(_tau, _P, _P, _P, _n, a, a), lemma_mp_nn(_tau, _P, _P, _n),
              lemma_zeros(Z, z3.IntVal(0), z3.IntVal(0), _n), sum_def(Z, 0, 0)], MPN(_tau, _P, _P, _n) == 0)]


PROOFS += prove_mp_zero()


def lemma_mp_small(tau, P, Q):
    """no momenta, and one pair"""
    return z3.And(MPN(tau, P, Q, 0) == 0, MPN(tau, P, Q, 1) == PDF(tau, S(P, 0), S(Q, 0)))


def prove_mp_small():
    x, y = PARR(_tau, ARRG(_P, OPI(_tau, _P, _Q, 0)), _Q), PARR(_tau, ARRG(_P, OPI(_tau, _P, _Q, 1)), _Q)
    return [("min_pairing: no momenta", [att(_tau, _P, _Q, 0), sum_def(x, 0, 0)], MPN(_tau, _P, _Q, 0) == 0),
            ("min_pairing: one pair", defs() + [att(_tau, _P, _Q, 1), sum_def(y, 0, 1), sum_def(y, 0, 0), S(OPI(_tau, _P, _Q, 1), 0) == S(OPI(_tau, _P, _Q, 1), 0)], MPN(_tau, _P, _Q, 1) == PDF(_tau, S(_P, 0), S(_Q, 0)))]


PROOFS += prove_mp_small()


def lemma_sd_empty(tau):
    """the distance from the empty set"""
    P, n = z3.Const("P!e", AM), z3.Int("n!e")
    return [FA([P, n], z3.Implies(n >= 0, SD(tau, P, n, EMPTY, 0) == NORM(tau, P, n)), [SD(tau, P, n, EMPTY, 0)]),
            FA([P, n], z3.Implies(n >= 0, SD(tau, EMPTY, 0, P, n) == NORM(tau, P, n)), [SD(tau, EMPTY, 0, P, n)])]


def prove_sd_empty():
    tau, n, P = _tau, _n, _P
    W = PADL(EMPTY, z3.IntVal(0))
    o, oi = OPI(tau, W, P, n), OIN(tau, W, P, n)
    a, b = PARR(tau, ARRG(W, o), P), NARR(tau, P)
    i = fresh("i", I)
    terms = FA([i], z3.Implies(z3.And(0 <= i, i < n), S(a, i) == S(b, i)), [S(a, i)])
    zero = z3.Implies(n >= 0, MPN(tau, W, P, n) == NORM(tau, P, n))
    P0 = PADL(P, 0)
    return [("set distance: padding only", defs() + [pd_sym(tau), n >= 0, att(tau, W, P, n)], terms),
            ("set distance: from the empty set", [z3.Implies(n >= 0, terms), att(tau, W, P, n), LEMMAS["sum_cong"](a, b, 0, n)], zero),
            ("set distance: of the empty set", [zero, sddef(tau, P, n, EMPTY, 0), lemma_mp_small(tau, PADL(P, n), EMPTY), sum_def(b, 0, n), n >= 0], SD(tau, P, n, EMPTY, 0) == NORM(tau, P, n)),
            ("set distance: to the empty set", [zero, sddef(tau, EMPTY, 0, P, n), n >= 0], SD(tau, EMPTY, 0, P, n) == NORM(tau, P, n))]


PROOFS += prove_sd_empty()


def prove_sd_props():
    """symmetric, not negative, zero for the same momenta in any order"""
    tau, P, Q, pi, inv = _tau, _P, _Q, _pi, _inv
    n, m = z3.Ints("n m")
    d = [sddef(tau, P, n, Q, m), sddef(tau, Q, m, P, n), n >= 0, m >= 0]
    e1 = z3.Implies(n <= m, equal_on(PADL(P, n), P, n))
    return [("set distance: symmetric", d + [z3.Implies(n == m, z3.And(equal_on(PADL(P, n), P, n), equal_on(PADL(Q, n), Q, n))), lemma_mp_cong(tau, PADL(P, n), P, Q, n),
              lemma_mp_cong(tau, PADL(Q, n), Q, P, n), lemma_mp_sym(tau, P, Q, n)], SD(tau, P, n, Q, m) == SD(tau, Q, m, P, n)),
            ("set distance: padding changes nothing", defs(), z3.And(equal_on(PADL(P, n), P, n), equal_on(PADL(Q, n), Q, n))),
            ("set distance: not negative", d + [lemma_mp_nn(tau, PADL(P, n), Q, m), lemma_mp_nn(tau, PADL(Q, m), P, n)], SD(tau, P, n, Q, m) >= 0),
            ("set distance: zero for the same momenta in any order", [sddef(tau, P, n, Q, n), n >= 0, equal_on(PADL(P, n), P, n), lemma_mp_cong(tau, PADL(P, n), P, Q, n), arrangement(P, Q, pi, inv, n),
              lemma_mp_perm(tau, P, Q, Q, n, pi, inv), lemma_mp_zero(tau, Q, n)], SD(tau, P, n, Q, n) == 0)]


PROOFS += prove_sd_props()


def prove_total():
    """the sum over types inherits these"""
    a, b = z3.Consts("a b", AR)
    lo, hi, u = z3.Int("lo"), z3.Int("hi"), z3.Int("u")
    A0 = z3.Const("a0", AR)
    return [("event distance: symmetric", [FA([u], S(a, u) == S(b, u), [S(a, u)]), LEMMAS["sum_cong"](a, b, lo, hi)], SUM(a, lo, hi) == SUM(b, lo, hi)),
            ("event distance: zero for the same momenta", [lo <= hi, FA([u], S(a, u) == 0, [S(a, u)]), lemma_zeros(a, lo, lo, hi), sum_def(a, lo, lo)], SUM(a, lo, hi) == 0),
            ("event distance: not negative, base", [hi <= lo, sum_def(a, lo, hi)], SUM(a, lo, hi) >= 0),
            ("event distance: not negative, step", [hi > lo, FA([u], S(a, u) >= 0, [S(a, u)]), sum_def(a, lo, hi), SUM(a, lo, hi - 1) >= 0], SUM(a, lo, hi) >= 0)]


PROOFS += prove_total()

MSLOT = z3.Function("matrix_slot", I, I, I, I)      # row, column, number of columns


def mslot_def(n):
    i, j = fresh("i", I), fresh("j", I)
    return FA([i, j], MSLOT(i, j, n) == i * n + j, [MSLOT(i, j, n)])


def lemma_divmod(n):
    i, j = fresh("i", I), fresh("j", I)
    return FA([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), z3.And(MSLOT(i, j, n) / n == i, MSLOT(i, j, n) % n == j, 0 <= MSLOT(i, j, n), MSLOT(i, j, n) < n * n)), [MSLOT(i, j, n)])


def prove_divmod():
    i, j, n, q, r = z3.Ints("i j n q r")
    m = i * n + j
    h = [0 <= i, i < n, 0 <= j, j < n]
    return [("divmod, difference", h + [q * n + r == m, 0 <= r, r < n, q < i, (i - q) * n >= n], z3.BoolVal(False)),
            ("divmod, difference 2", h + [q * n + r == m, 0 <= r, r < n, q > i, (q - i) * n >= n], z3.BoolVal(False)),
            ("divmod, product", [n > 0, q < i], (i - q) * n >= n),
            ("divmod, bound", h + [(n - 1 - i) * n >= 0], z3.And(m >= 0, m < n * n)),
            ("divmod, bound 2", h, (n - 1 - i) * n >= 0),
            ("divmod", h + [q == m / n, r == m % n, m == q * n + r, 0 <= r, r < n, z3.Not(q < i), z3.Not(q > i), m >= 0, m < n * n], z3.And(m / n == i, m % n == j, 0 <= m, m < n * n))]


PROOFS += prove_divmod()
LM.PROOFS += PROOFS


def lemma_same_trans(A, C, E, n):
    return z3.Implies(z3.And(SAME(A, C, n), SAME(C, E, n)), SAME(A, E, n))


def prove_same():
    A, C, E = z3.Consts("A C E", AM)
    n = _n
    f, fi, g, gi = MSP(A, C, n), MSI(A, C, n), MSP(C, E, n), MSI(C, E, n)
    h, d1 = comp(g, f)
    hi, d2 = comp(fi, gi)
    x, d = ident()
    hyp = [arrangement(A, C, f, fi, n), arrangement(C, E, g, gi, n)]
    b = bij(h, hi, n)
    e = arrangement(A, E, h, hi, n)
    return [("same_multiset: chain of bijections", [n >= 0, bij(f, fi, n), bij(g, gi, n)] + d1 + d2, b),
            ("same_multiset: chain", hyp + d1 + [b], e),
            ("same_multiset: transitive", [samedef(A, C, n), samedef(C, E, n), z3.Implies(z3.And(hyp), e), same_intro(A, E, n, h, hi)], lemma_same_trans(A, C, E, n)),
            ("same_multiset: reflexive", [d, n >= 0], arrangement(A, A, x, x, n))]


LM.PROOFS += prove_same()


def sym_same(T, P, X, n):
    """arrangements of the same list are arrangements of each other"""
    return z3.Implies(z3.And(SAME(T, P, n), SAME(X, P, n)), SAME(T, X, n))


def prove_sym_same():
    T, P, X = z3.Consts("T P X", AM)
    n = _n
    g, gi = MSP(X, P, n), MSI(X, P, n)
    a = arrangement(P, X, gi, g, n)
    return [("same_multiset: inverse", [arrangement(X, P, g, gi, n)], a),
            ("same_multiset: of the same list", [samedef(X, P, n), z3.Implies(arrangement(X, P, g, gi, n), a), same_intro(P, X, n, gi, g), lemma_same_trans(T, P, X, n)], sym_same(T, P, X, n))]


LM.PROOFS += prove_sym_same()


def lemma_naive(tau, P, Q, n):
    """the optimal arrangement is an arrangement, and has the least distance"""
    T = ARRG(P, OPI(tau, P, Q, n))
    return z3.Implies(n >= 0, z3.And(SAME(T, P, n), MPN(tau, P, Q, n) == PAIR(tau, T, Q, n)))


def prove_naive():
    T = ARRG(_P, OPI(_tau, _P, _Q, _n))
    o, oi = OPI(_tau, _P, _Q, _n), OIN(_tau, _P, _Q, _n)
    a = arrangement(T, _P, o, oi, _n)
    return [("optimal arrangement, elements", [defs()[3], _n >= 0, bij(o, oi, _n)], a),
            ("optimal arrangement", [z3.Implies(z3.And(_n >= 0, bij(o, oi, _n)), a), att(_tau, _P, _Q, _n), same_intro(T, _P, _n, o, oi)], lemma_naive(_tau, _P, _Q, _n))]


LM.PROOFS += prove_naive()


def lemma_same_least(tau, T, P, Q, n):
    return z3.Implies(z3.And(n >= 0, SAME(T, P, n)), MPN(tau, P, Q, n) <= PAIR(tau, T, Q, n))


LM.PROOFS.append(("arrangements are not better", [samedef(_T, _P, _n), lemma_least(_tau, _T, _P, _Q, _n, MSP(_T, _P, _n), MSI(_T, _P, _n))], lemma_same_least(_tau, _T, _P, _Q, _n)))
_r, _m, _k = z3.Real("r"), z3.Real("m"), z3.Int("k")
LM.PROOFS += [("root of a square", [_r >= 0, _m >= 0, _r * _r == _m * _m], _r == _m),
              ("root of a square, integers", [_n == _k, _n >= 0], z3.ToReal(_n * _k) == z3.ToReal(_n) * z3.ToReal(_n))]


def order_fact(eng, st, v, n):
    """the list is in non-decreasing order"""
    i, j = fresh("i", I), fresh("j", I)
    s = st.copy()
    k0 = len(s.pc)
    x, y = sel(v, i), sel(v, j)
    g = zb(models.lt(eng, s, y, x))
    if len(s.pc) != k0:
        raise Unsupported("order of momenta")
    return FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(n)), z3.Not(g)), [z3.Select(v.lv[0], i), z3.Select(v.lv[0], j)])


# assumed contracts of dependencies
def next_permutation(eng, st, a, info):
    """permutohedron: the next arrangement in lexicographic order, or false (and no change) for the last one. RANK counts the distinct arrangements
    before a given one, so it is 0 for a sorted list, grows by one with each call, and tells arrangements apart"""
    v = models.ld(eng, st, a[0])
    if not isinstance(v, SeqV) or not is0(v.off):
        raise Unsupported("permutations of a part of a list")
    if not eng._derived_ord(eng.crate.adts[FV]) if hasattr(eng, "_derived_ord") else False:
        raise Unsupported("order of momenta")
    n = zi(v.n)
    L0 = lst(eng, v)
    s1, s2 = st.copy(), st.copy()
    b = fresh("permuted", B)
    s1.branch(b) if hasattr(s1, "branch") else s1.pc.append(("b", b))
    s2.branch(z3.Not(b)) if hasattr(s2, "branch") else s2.pc.append(("b", z3.Not(b)))
    w = models.perm_seq(eng, s1, v, "permuted")
    s1.trace = st.trace
    L1 = lst(eng, w)
    s1.fact(lstdef(order(eng, w)), RANK(L1, n) == RANK(L0, n) + 1, z3.Implies(n >= 0, SAME(L1, L0, n)))
    s2.fact(LASTP(L0, n))
    eng.assign(s1, a[0], w)
    return [(s1, z3.BoolVal(True)), (s2, z3.BoolVal(False))]


LASTP = z3.Function("last_arrangement", AM, I, B)


def rank_facts(T, L, n):
    """about an arrangement T of L"""
    return z3.Implies(SAME(T, L, n), z3.And(RANK(T, n) >= 0, z3.Implies(LASTP(L, n), RANK(T, n) <= RANK(L, n)), z3.Implies(RANK(T, n) == RANK(L, n), equal_on(T, L, n))))


def km_min(eng, st, a, info):
    """pathfinding: least total weight over all assignments of rows to columns"""
    v = models.ld(eng, st, a[0])
    if not (isinstance(v, Agg) and v.ty == SM):
        raise Unsupported("assignment for %s" % (v,))
    iE, iR = smf(eng.crate)
    e, n = v.f[iE], zi(v.f[iR])
    if not is0(e.off):
        raise Unsupported("matrix from a part of a list")
    eng.oblige(st, zi(e.n) == n * n, "the matrix is square and complete", "precondition")
    s, si = fresh("assigned", AI), fresh("assigned_inv", AI)
    t = fresh("terms", AR)
    i = fresh("i", I)
    st.fact(mslot_def(n), bij(s, si, n), FA([i], S(t, i) == S(e.lv[0], MSLOT(i, S(s, i), n)), [S(t, i)]))
    tot = SUM(t, z3.IntVal(0), n)
    st.trace = st.trace + (("assign", tot, e.lv[0], n, s, si, t),)
    return models.one(st, Agg("tuple", [tot, fresh_of(("seq", "i"), "assignment") if False else SeqV("i", [s], 0, n)]))


def km_least(t, o, oi):
    """the assumed contract for one other assignment"""
    _, tot, e, n, s, si, _t = t
    b = fresh("terms", AR)
    i = fresh("i", I)
    return b, [FA([i], S(b, i) == S(e, MSLOT(i, S(o, i), n)), [S(b, i)]), z3.Implies(z3.And(n >= 0, bij(o, oi, n)), tot <= SUM(b, z3.IntVal(0), n))]


MODELS = {"permutohedron::LexicalPermutation::next_permutation": next_permutation, "pathfinding::kuhn_munkres::kuhn_munkres_min": km_min}


def smf(crate):
    F = [f["n"] for f in crate.adts[SM]["variants"][0]["f"]]
    return F.index("entries"), F.index("rows")


def order(eng, v):
    """component arrays as (pt, E, x, y, z)"""
    if not isinstance(v, SeqV) or not is0(v.off) or len(v.lv) != 5:
        raise Unsupported("a part of a list of momenta")
    iT, iP = fields(eng.crate)
    return list(v.lv) if iT < iP else [v.lv[4]] + list(v.lv[:4])


def lst(eng, v):
    return LST(*order(eng, v))


def mom(eng, v):
    iT, iP = fields(eng.crate)
    return [v.f[iT]] + [v.f[iP].f[k] for k in range(4)]


def contracts(crate, multi):
    cs = []
    ETA = [f["n"] for f in crate.adts["distance::EuclWithScaledPt"]["variants"][0]["f"]].index("pt_weight")
    EO = [f["n"] for f in crate.adts["event::Event"]["variants"][0]["f"]].index("outgoing_by_pid")

    def add(path, inline=False, **kw):
        con = Contract(path, props=("C06",), **kw)
        con.inline = inline
        cs.append(con)
        return con
    M = lambda c, k: mom(c.eng, models.ld(c.eng, c.st, c.a[k]))
    ld = lambda c, k: models.ld(c.eng, c.st, c.a[k])
    sq = lambda tau, p, q: pd_expr(tau, p, q).arg(0)
    Z = [z3.RealVal(0)] * 5
    add("distance::pt_norm_sq", ensures=lambda c: [("squared momentum plus scaled transverse momentum", c.ret == sq(c.a[1], M(c, 0), Z)), ("not negative", c.ret >= 0)])
    add("distance::pt_dist_sq", ensures=lambda c: [("squared differences of the momenta and the scaled transverse momenta", c.ret == sq(c.a[2], M(c, 0), M(c, 1))), ("not negative", c.ret >= 0)])

    def pt_norm_ens(c):
        c.lemma(pdef(c.a[1], M(c, 0), Z))
        return [("distance from zero", c.ret == PDF(c.a[1], MOM(*M(c, 0)), ZEROM))]

    def pt_dist_ens(c):
        c.lemma(pdef(c.a[2], M(c, 0), M(c, 1)))
        return [("distance of the momenta", c.ret == PDF(c.a[2], MOM(*M(c, 0)), MOM(*M(c, 1))))]
    add("distance::pt_norm", ensures=pt_norm_ens)
    add("distance::pt_dist", ensures=pt_dist_ens)
    add(EU + "new", ensures=lambda c: [("weight of the transverse momentum", c.ret.f[ETA] == c.a[0])])
    tau = lambda c: models.ld(c.eng, c.st, c.a[0]).f[ETA]

    def lists(c, *ks):
        out = []
        for k in ks:
            v = models.ld(c.eng, c.pre_st, c.a[k])
            c.lemma(lstdef(order(c.eng, v)))
            out += [lst(c.eng, v), zi(v.n)]
        return out

    def trace(c, kind):
        return [t for t in c.st.trace if t[0] == kind]

    def norm_ens(c):
        L, n = lists(c, 1)
        if not c.caller:
            c.lemma(*defs())
            for t in trace(c, "sum"):
                c.lemma(LEMMAS["sum_cong"](t[1], NARR(tau(c), L), 0, n))
        return [("sum of the distances from zero", c.ret == NORM(tau(c), L, n))]
    add(EU + "pt_norm", ensures=norm_ens)

    def same_len(c):
        return [("as many momenta on both sides", zi(ld(c, 1).n) == zi(ld(c, 2).n))]

    def paired_ens(c):
        L1, n, L2, _ = lists(c, 1, 2)
        if not c.caller:
            c.lemma(*defs())
            for t in trace(c, "sum"):
                c.lemma(LEMMAS["sum_cong"](t[1], PARR(tau(c), L1, L2), 0, n))
        return [("sum of the distances of the pairs", c.ret == PAIR(tau(c), L1, L2, n))]
    add(EU + "paired_distance", requires=same_len, ensures=paired_ens)

    # ---- all arrangements
    def naive_lemmas(c, cur):
        L1, n, L2, _ = lists(c, 1, 2)
        t = tau(c)
        T = ARRG(L1, OPI(t, L1, L2, n))
        return [lstdef(order(c.eng, cur)), lemma_naive(t, L1, L2, n), rank_facts(T, lst(c.eng, cur), n), lemma_same_trans(lst(c.eng, cur), lst(c.eng, cur), L1, n)], T

    def naive_inv(L):
        c = L.call
        cur = L.v("p1")
        v1, v2 = models.ld(c.eng, c.pre_st, c.a[1]), models.ld(c.eng, c.pre_st, c.a[2])
        L1, L2, n, t = lst(c.eng, v1), lst(c.eng, v2), zi(v1.n), tau(c)
        T = ARRG(L1, OPI(t, L1, L2, n))
        X = lst(c.eng, cur)
        prev = lst(c.eng, models.ld(c.eng, L.head if isinstance(L.head, State) else L.st, L.ptr("p1"))) if isinstance(L.head, State) else X
        L.lemma(lstdef(order(c.eng, v1)), lstdef(order(c.eng, v2)), lstdef(order(c.eng, cur)), lemma_naive(t, L1, L2, n), rank_facts(T, X, n), lemma_same_least(t, X, L1, L2, n),
                lemma_same_trans(X, prev, L1, n), SAME(L1, L1, n), lemma_pair_cong(t, T, X, L2, L2, n), sym_same(T, L1, X, n))
        m = L.v("min_dist")
        return [("as many momenta", zi(cur.n) == n), ("the momenta are arranged", SAME(X, L1, n)), ("not below the least distance", m >= MPN(t, L1, L2, n)),
                ("not above that of the optimal arrangement once it was met", z3.Implies(RANK(T, n) <= RANK(X, n), m <= MPN(t, L1, L2, n)))]

    def naive_ens(c):
        L1, n, L2, _ = lists(c, 1, 2)
        t = tau(c)
        if not c.caller:
            T = ARRG(L1, OPI(t, L1, L2, n))
            cur = c.new(1)
            X = lst(c.eng, cur)
            c.lemma(lemma_naive(t, L1, L2, n), rank_facts(T, X, n), sym_same(T, L1, X, n))
        return [("least distance over all arrangements", c.ret == MPN(t, L1, L2, n))]

    def naive_req(c):
        return same_len(c) + [("the momenta are sorted", order_fact(c.eng, c.st, ld(c, 1), ld(c, 1).n))]

    def naive_facts(c):
        v = models.ld(c.eng, c.pre_st, c.a[1])
        n = zi(v.n)
        L1 = lst(c.eng, v)
        # a sorted list is the first arrangement
        return [z3.Implies(order_fact(c.eng, c.st, v, v.n), RANK(L1, n) == 0), z3.Implies(n >= 0, SAME(L1, L1, n))]
    con = add(EU + "min_paired_distance_naive", requires=naive_req, ensures=naive_ens, modifies={1: [()]}, loops={0: LoopSpec(naive_inv)})
    con.facts = naive_facts

    # ---- assignment
    def hung_facts(c):
        n1, n2 = zi(ld(c, 1).n), zi(ld(c, 2).n)
        return [z3.Implies(z3.And(n1 == n2, n1 >= 0), z3.And(z3.ToInt(SQRT(z3.ToReal(n1) * z3.ToReal(n2))) == n1, SQRT(z3.ToReal(n1 * n2)) == z3.ToReal(n1), SQRT(z3.ToReal(n1) * z3.ToReal(n2)) == z3.ToReal(n1), n1 * n2 == n1 * n1))]

    def hung_ens(c):
        L1, n, L2, _ = lists(c, 1, 2)
        t = tau(c)
        if c.caller:
            return [("least distance over all arrangements", c.ret == MPN(t, L1, L2, n))]
        ts = trace(c, "assign")
        if len(ts) != 1:
            raise Unsupported("not exactly one assignment")
        _, tot, e, rows, s, si, terms = ts[0]
        o, oi = OPI(t, L2, L1, n), OIN(t, L2, L1, n)
        b, fs = km_least((0, tot, e, rows, s, si, terms), o, oi)
        i, j = fresh("i", I), fresh("j", I)
        X, Y = ARRG(L2, s), ARRG(L2, o)
        c.lemma(mslot_def(rows), lemma_divmod(rows), *defs(), *fs, att(t, L2, L1, n), least(t, L2, L1, n, s, si), lemma_mp_sym(t, L1, L2, n), pd_sym(t),
                LEMMAS["sum_cong"](terms, PARR(t, X, L1), 0, n), LEMMAS["sum_cong"](b, PARR(t, Y, L1), 0, n))
        m = MSLOT(i, j, rows)
        return [("one row for each momentum", rows == n),
                ("the matrix holds the distances", FA([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), S(e, m) == PDF(t, S(L1, i), S(L2, j))), [m])),
                ("terms of the assignment", FA([i], z3.Implies(z3.And(0 <= i, i < n), S(terms, i) == S(PARR(t, X, L1), i)), [S(terms, i)]), {"use": ["one row for each momentum", "the matrix holds the distances"]}),
                ("terms of the optimal arrangement", FA([i], z3.Implies(z3.And(0 <= i, i < n), S(b, i) == S(PARR(t, Y, L1), i)), [S(b, i)]), {"use": ["one row for each momentum", "the matrix holds the distances"]}),
                ("least distance over all arrangements", c.ret == MPN(t, L1, L2, n), {"use": ["one row for each momentum", "terms of the assignment", "terms of the optimal arrangement"]})]
    con = add(EU + "min_paired_distance_hungarian", requires=same_len, ensures=hung_ens)
    con.facts = hung_facts

    # the matrix as the dependency sees it
    iE, iR = smf(crate)
    mat = lambda c: models.ld(c.eng, c.st, c.a[0])
    W = "<distance::SquareMatrix as pathfinding::kuhn_munkres::Weights<noisy_float::NoisyFloat<f64, noisy_float::checkers::NumChecker>>>::"

    def mat_req(c, row, col):
        m = mat(c)
        r = zi(m.f[iR])
        return [("the matrix is square and complete", zi(m.f[iE].n) == r * r), ("row and column exist", z3.And(0 <= row, row < r, 0 <= col, col < r)),
                ("bound", z3.Implies(z3.And(0 <= row, row < r, 0 <= col, col < r), z3.And(row * r + col < r * r, row * r >= 0))), ("memory is finite", r * r < 2 ** 63)]
    add(W + "rows", inline=True, ensures=lambda c: [("number of rows", zi(c.ret) == zi(mat(c).f[iR]))])
    add(W + "columns", inline=True, ensures=lambda c: [("as many columns", zi(c.ret) == zi(mat(c).f[iR]))])
    add(W + "at", inline=True, requires=lambda c: mat_req(c, zi(c.a[1]), zi(c.a[2])),
        ensures=lambda c: [("the entry of this row and column", c.ret == sel(mat(c).f[iE], zi(c.a[1]) * zi(mat(c).f[iR]) + zi(c.a[2])))])

    def neg_ens(c):
        m, r = mat(c), c.ret
        return [("same size", z3.And(zi(r.f[iR]) == zi(m.f[iR]), zi(r.f[iE].n) == zi(m.f[iE].n))),
                ("all entries change sign", forall(m.f[iE].n, lambda k: sel(r.f[iE], k) == -sel(m.f[iE], k), lambda k: sel(r.f[iE], k)))]
    add(W + "neg", inline=True, ensures=neg_ens)
    idx = "<distance::SquareMatrix as std::ops::Index<(usize, usize)>>::index"
    add(idx, inline=True, requires=lambda c: mat_req(c, zi(c.a[1].f[0]), zi(c.a[1].f[1])),
        ensures=lambda c: [("the entry of this row and column", models.ld(c.eng, c.st, c.ret) == sel(mat(c).f[iE], zi(c.a[1].f[0]) * zi(mat(c).f[iR]) + zi(c.a[1].f[1])))])

    # ---- the smaller set is padded
    def min_ens(c):
        L1, n1, L2, n2 = lists(c, 1, 2)
        t = tau(c)
        c.lemma(sddef(t, L1, n1, L2, n2))
        fin = ("optimal pairing with padding", c.ret == SD(t, L1, n1, L2, n2))
        if c.caller:
            return [fin]
        c.lemma(sddef(t, L2, n2, L1, n1), *defs())
        ps = trace(c, "perm")
        if not ps:
            return [fin]
        if len(ps) > 1:
            raise Unsupported("sorted more than once")
        _, pi, inv, w = ps[0]
        a, d1 = ghost("pi", lambda i: pi(i), sort=I)
        b, d2 = ghost("inv", lambda i: inv(i), sort=I)
        i = fresh("i", I)
        W_ = lst(c.eng, w)
        c.lemma(lstdef(order(c.eng, w)), *d1, *d2)
        # whichever list is shorter
        out = []
        for cond, P, Q, n in ((n1 <= n2, PADL(L1, n1), L2, n2), (n2 < n1, PADL(L2, n2), L1, n1)):
            out.append(("the padded momenta are arranged" + (" if the second list is shorter" if out else ""), z3.Implies(cond, arrangement(W_, P, a, b, n)), {"lemmas": [z3.BoolVal(True)]}))
            out.append((fin[0] + (" if the second list is shorter" if len(out) > 1 else ""), z3.Implies(cond, fin[1]), {"use": [out[-1][0]], "lemmas": [lemma_mp_perm(t, W_, P, Q, n, a, b), lemma_mp_small(t, W_, Q)]}))
        return out
    add(EU + "min_paired_distance", ensures=min_ens, decreases=lambda c: z3.If(zi(ld(c, 1).n) > zi(ld(c, 2).n), z3.IntVal(1), z3.IntVal(0)))

    def set_ens(c):
        L1, n1, L2, n2 = lists(c, 1, 2)
        return [("optimal pairing with padding", c.ret == SD(tau(c), L1, n1, L2, n2))]
    add(EU + "set_distance", ensures=set_ens)

    # ---- all types
    DIST = "<distance::EuclWithScaledPt as distance::Distance>::distance"

    def groups(c, k):
        v = models.ld(c.eng, c.pre_st, c.a[k]).f[EO]
        if not isinstance(v, SeqV) or not is0(v.off):
            raise Unsupported("outgoing particles")
        return v
    # types are counted from the last one, so that they come in ascending order
    U = lambda v, i: -pidval(sel(v, i).f[0])
    G = lambda v, i: sel(v, i).f[1]

    def dist_req(c):
        out = []
        for k, nm in ((1, "first"), (2, "second")):
            v = groups(c, k)
            out.append(("%s event: types in descending order" % nm, forall2(v.n, lambda i, j: U(v, i) < U(v, j), lambda i, j: [pidval(sel(v, i).f[0]), pidval(sel(v, j).f[0])])))
        return out

    IX = [z3.Const("group_of_type_%d" % k, AI) for k in (1, 2)]
    A = z3.Const("distance_of_type", AR)
    LO, HI = z3.Ints("first_type last_type")
    GL = [z3.Const("momenta_of_group_%d" % k, z3.ArraySort(I, AM)) for k in (1, 2)]

    def dist_facts(c):
        """definitions: A[u] is the distance of the momenta of type u (absent: no momenta)"""
        vs = [groups(c, 1), groups(c, 2)]
        t = tau(c)
        fs = []
        u, i = fresh("u", I), fresh("i", I)
        for v, ix, gl in zip(vs, IX, GL):
            n = zi(v.n)
            p = pidval(sel(v, i).f[0])
            fs.append(FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(S(ix, -p) == i, LO <= -p, -p < HI)), [p]))
            fs.append(FA([u], z3.Or(S(ix, u) == -1, z3.And(0 <= S(ix, u), S(ix, u) < n, U(v, S(ix, u)) == u)), [S(ix, u)]))
            g = G(v, i)
            fs.append(FA([i], S(gl, i) == LST(*order(c.eng, g)), [S(gl, i)]))
        fs.append(LO <= HI)
        i1, i2 = S(IX[0], u), S(IX[1], u)
        l1, l2 = S(GL[0], i1), S(GL[1], i2)
        n1, n2 = zi(G(vs[0], i1).n), zi(G(vs[1], i2).n)
        fs.append(FA([u], S(A, u) == z3.If(i1 == -1, z3.If(i2 == -1, z3.RealVal(0), SD(t, EMPTY, 0, l2, n2)), z3.If(i2 == -1, SD(t, l1, n1, EMPTY, 0), SD(t, l1, n1, l2, n2))), [S(A, u)]))
        return fs + lemma_sd_empty(t)

    def cut(vs, i1, i2):
        a = z3.If(i1 > 0, U(vs[0], i1 - 1) + 1, LO)
        b = z3.If(i2 > 0, U(vs[1], i2 - 1) + 1, LO)
        return z3.If(a > b, a, b)

    def dist_inv(L):
        c = L.call
        vs = [groups(c, 1), groups(c, 2)]
        i1, i2 = zi(L.v("idx1")), zi(L.v("idx2"))
        n1, n2 = zi(vs[0].n), zi(vs[1].n)
        k = cut(vs, i1, i2)
        if L.head is None:
            L.lemma(sum_def(A, LO, LO))
        step, o = [], {}
        if L.head is not None:
            h1, h2 = zi(L._val(L.head, "idx1")), zi(L._val(L.head, "idx2"))
            t1, t2 = U(vs[0], h1), U(vs[1], h2)
            nxt, c0 = fresh("next_type", I), fresh("previous_cut", I)
            z = lemma_zeros(A, LO, c0, nxt)
            l1, l2 = S(GL[0], h1), S(GL[1], h2)
            g1, g2 = zi(G(vs[0], h1).n), zi(G(vs[1], h2).n)
            t = tau(c)
            term = z3.If(t1 < t2, NORM(t, l1, g1), z3.If(t1 > t2, NORM(t, l2, g2), SD(t, l1, g1, l2, g2)))
            u = fresh("u", I)
            between = z3.And(c0 <= u, u < nxt)
            L.lemma(nxt == z3.If(t1 < t2, t1, t2), c0 == cut(vs, h1, h2))
            step = [("the next type", z3.And(k == nxt + 1, LO <= c0, c0 <= nxt))] + \
                   [("not in the %s event in between" % nm, FA([u], z3.Implies(between, S(ix, u) == -1), [S(ix, u)])) for nm, ix in (("first", IX[0]), ("second", IX[1]))] + \
                   [("no type in between", FA([u], z3.Implies(between, S(A, u) == 0), [S(A, u)]), {"use": ["not in the first event in between", "not in the second event in between"]}),
                    ("group of the next type in the first event", S(IX[0], nxt) == z3.If(t1 <= t2, h1, -1)), ("group of the next type in the second event", S(IX[1], nxt) == z3.If(t2 <= t1, h2, -1)),
                    ("distance of the next type", S(A, nxt) == term, {"use": ["group of the next type in the first event", "group of the next type in the second event"]}),
                    ("distance so far grows by that", L.v("dist") == L._val(L.head, "dist") + term)]
            o = {"use": ["the next type", "no type in between", "distance of the next type", "distance so far grows by that"], "lemmas": [z, sum_def(A, LO, nxt + 1)]}
        return step + [("positions", z3.And(0 <= i1, i1 <= n1, 0 <= i2, i2 <= n2)), ("types of the rest of the first event", z3.Implies(i1 < n1, U(vs[0], i1) >= k)),
                ("types of the rest of the second event", z3.Implies(i2 < n2, U(vs[1], i2) >= k)), ("types so far", z3.And(LO <= k, k <= HI)),
                ("distance of the types so far", L.v("dist") == SUM(A, LO, k), o)]

    def dist_ens(c):
        fin = ("sum over all types of the optimal pairing distances", c.ret == SUM(A, LO, HI))
        if c.caller:
            raise Unsupported("contract of the event distance in a caller")
        vs = [groups(c, 1), groups(c, 2)]
        n1, n2 = zi(vs[0].n), zi(vs[1].n)
        ts = trace(c, "sum")
        if len(ts) > 1:
            raise Unsupported("more than one remainder")
        if not ts:
            k = cut(vs, n1, n2)
            return [("nothing else is left", lemma_zeros(A, LO, k, HI).arg(0)), (fin[0], fin[1], {"lemmas": [lemma_zeros(A, LO, k, HI)], "use": ["nothing else is left"]})]
        _, arr, pos, n, meta = ts[0]
        src = meta.get("src")
        k = [k for k in (0, 1) if isinstance(src, SeqV) and src.lv[0].eq(vs[k].lv[0])]
        if len(k) != 1:
            raise Unsupported("the remainder is not one of an event")
        v, ix = vs[k[0]], IX[k[0]]
        m = zi(n) - zi(pos)
        lo = zi(v.n) - m
        c0 = cut(vs, lo, n2) if k[0] == 0 else cut(vs, n1, lo)
        q = fresh("k", I)
        cc, T, X = fresh("rest", AR), fresh("types", AI), fresh("place", AI)
        d = [FA([q], S(cc, q) == S(arr, zi(pos) + q), [S(cc, q)]), FA([q], S(T, q) == U(v, lo + q), [S(T, q)]), FA([q], S(X, q) == S(ix, q) - lo, [S(X, q)])]
        z = lemma_sparse(A, T, X, cc, LO, c0, HI, m)
        c.lemma(*d)
        steps = [("remainder: " + nm, g) for nm, g in zip(("start", "end", "length", "terms", "types", "nothing else"), z.arg(0).children())]
        g = G(v, lo + q)
        gl = S(GL[k[0]], lo + q)
        hint = FA([q], z3.Implies(z3.And(0 <= q, q < m), S(A, S(T, q)) == NORM(tau(c), gl, zi(g.n))), [S(T, q)])
        hint2 = FA([q], z3.Implies(z3.And(0 <= q, q < m), S(cc, q) == NORM(tau(c), gl, zi(g.n))), [S(cc, q)])
        tot = z3.And(SUM(cc, z3.IntVal(0), m) == SUM(arr, zi(pos), zi(n)))
        return [("remainder: distances by type", hint), ("remainder: summed", hint2)] + [(x[0], x[1], {"use": ["remainder: distances by type", "remainder: summed"]}) for x in steps] + \
               [("remainder: sum", tot, {"lemmas": [LEMMAS["sum_cong"](cc, arr, 0, m)]} if is0(pos) else {}), (fin[0], fin[1], {"lemmas": [z], "use": [x[0] for x in steps] + ["remainder: sum"]})]
    con = add(DIST, requires=dist_req, ensures=dist_ens, loops={0: LoopSpec(dist_inv)})
    con.facts = dist_facts
    return cs
