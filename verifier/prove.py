"""Discharging obligations with z3 (second opinion: cvc5), in parallel forked workers."""
import os
import random
import time
import subprocess
import tempfile
import pickle
import select
import multiprocessing as mp
import z3

_JOBS = []
_FAILED = None         # number of obligations of this batch that failed
RATE = 2500000          # about the work of a second
ENOUGH = 8             # after so many the others of the function only get a short attempt


def die_with_parent():
    """workers end when the process that started them does"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def solver(timeout, seed=0, mbqi=False, eqs=False):
    s = z3.Solver()
    s.set("smt.solve_eqs", eqs)    # eliminating a variable by its equation changes the patterns of quantifiers it occurs in
    # searches are bounded by the work done, so that they do not depend on how busy the machine is
    s.set("rlimit", int(timeout * RATE))
    s.set("timeout", int(timeout * 4000))
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    if seed:
        s.set("smt.random_seed", seed)
        s.set("smt.arith.solver", 2 if seed % 2 else 6)
    return s


MUL = z3.Function("mul", z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVR = z3.Function("divr", z3.RealSort(), z3.RealSort(), z3.RealSort())
IMUL = z3.Function("imul", z3.IntSort(), z3.IntSort(), z3.IntSort())


def is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def abstract_nl(e, cache):
    """the same formula with products and quotients of non-constants uninterpreted (weaker facts, so sound)"""
    i = e.get_id()
    if i in cache:
        return cache[i][0]
    if z3.is_quantifier(e):
        vs = [z3.FreshConst(e.var_sort(j), "q") for j in range(e.num_vars())]
        sub = list(reversed(vs))
        body = abstract_nl(z3.substitute_vars(e.body(), *sub), cache)
        pats = []
        for j in range(e.num_patterns()):
            p = e.pattern(j)
            ts = [z3.substitute_vars(p.arg(x), *sub) for x in range(p.num_args())]
            pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        if e.is_forall():
            r = z3.ForAll(vs, body, patterns=pats)
        elif e.is_exists():
            r = z3.Exists(vs, body, patterns=pats)
        else:
            r = e
    elif z3.is_app(e) and e.num_args():
        ch = [abstract_nl(c, cache) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not is_num(c) for c in ch) > 1:
            nums = [c for c in ch if is_num(c)]
            r = None
            for c in ch:
                if is_num(c):
                    continue
                r = c if r is None else (MUL if c.sort() == z3.RealSort() else IMUL)(r, c)
            for c in nums:
                r = c * r
        elif k == z3.Z3_OP_DIV and not is_num(ch[1]):
            r = DIVR(ch[0], ch[1])
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
    else:
        r = e
    cache[i] = (r, e)
    return r


def comm():
    """multiplication commutes"""
    x, y = z3.Reals("x!m y!m")
    i, j = z3.Ints("i!m j!m")
    return [z3.ForAll([x, y], MUL(x, y) == MUL(y, x), patterns=[MUL(x, y)]), z3.ForAll([i, j], IMUL(i, j) == IMUL(j, i), patterns=[IMUL(i, j)])]


def conjuncts(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += conjuncts(c)
        return r
    return [g]


def check(facts, goal, timeout, part=slice(None)):
    """'proved' | 'failed' | 'undecided', seconds, detail"""
    t0 = time.time()
    res, det = "failed", ""
    plan = [(min(3, timeout * 0.25), 0, True, False), (min(2, timeout * 0.1), 0, False, False), (timeout * 0.25, 0, False, False), (timeout * 0.25, 0, True, True), (timeout * 0.25, 1, True, False)]
    for attempt, (to, seed, nl, mbqi) in list(enumerate(plan))[part]:
        s = solver(to, seed, mbqi)
        if nl:
            for f in facts:
                s.add(f)
            s.add(z3.Not(goal))
        else:
            c = {}
            s.add(*comm())
            for f in facts:
                s.add(abstract_nl(f, c))
            s.add(abstract_nl(z3.Not(goal), c))
        r = s.check()
        if r == z3.unsat:
            return "proved", time.time() - t0, ""
        if r == z3.sat and not nl:
            continue
        if r == z3.sat:
            m = s.model()
            det = "counterexample of the solver: " + ", ".join("%s = %s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and not z3.is_array(m[d]))[:1500]
            return "failed", time.time() - t0, det
        if not nl:
            continue
        why = s.reason_unknown()
        det = "solver: unknown (%s)" % why
        res = "undecided" if ("timeout" in why or "canceled" in why or "resource" in why) else "failed"
        if res == "failed" and attempt == 0:
            continue
    return res, time.time() - t0, det


def z3_old(facts, goal, timeout):
    """the z3 binary of the system (another version: its instantiation finds some proofs the library misses)"""
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(s.to_smt2())
    try:
        p = subprocess.run(["/usr/bin/z3", "smt.auto_config=false", "smt.mbqi=false", "rlimit=%d" % int(timeout * RATE), "-T:%d" % max(1, int(4 * timeout)), f.name], capture_output=True, text=True, timeout=4 * timeout + 5)
        return p.stdout.split("\n")[0].strip()
    except Exception as e:
        return "error %s" % e
    finally:
        os.unlink(f.name)


def cvc5_check(facts, goal, timeout):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.split("\n")[0].strip()
    except Exception as e:
        return "error %s" % e
    finally:
        os.unlink(f.name)


VARIANTS = [(0, {"smt.relevancy": 0}), (1, {}), (0, {"smt.solve_eqs": True}), (2, {"smt.case_split": 3}), (3, {"smt.relevancy": 0}), (4, {}), (5, {"smt.arith.solver": 2}), (1, {"smt.solve_eqs": True, "smt.relevancy": 0})]
LAST = VARIANTS + [(sd, {"smt.random_seed": sd, "smt.relevancy": 2 * (sd % 2)}) for sd in range(6, 18)]


def variants(facts, goal, to, plan=VARIANTS):
    """more searches for the same proof: other orders of the facts, every literal relevant"""
    neg = z3.Not(goal)
    for n, (sd, opts) in enumerate(plan):
        fs = list(facts)
        if sd:
            random.Random(sd).shuffle(fs)
        s = solver(to)
        for k, v in opts.items():
            s.set(k, v)
        s.add(fs)
        s.add(neg)
        if s.check() == z3.unsat:
            return n + 1
    return 0


def _last(i):
    """the obligations no search proved and that have no counterexample: many more searches, with more time"""
    facts, goal, timeout, _ = _JOBS[i]
    t0 = time.time()
    n = variants(facts, goal, timeout, LAST)
    if n:
        return i, "proved", time.time() - t0, "by search %d of the last round" % n, "z3"
    return i, "", time.time() - t0, "", "z3"


def last_round(obls, timeout, workers=8):
    global _JOBS
    obls = [o for o in obls if o.result != "proved" and "counterexample" not in (o.detail or "")]
    if not obls:
        return
    _JOBS = [(o.facts + list(o.extra), o.goal, timeout, 0) for o in obls]
    for x in each(_last, len(_JOBS), workers):
        if x:
            i, r, t, d, be = x
            obls[i].time += t
            if r:
                obls[i].result, obls[i].detail, obls[i].backend = r, d, be


def each(fn, n, workers):
    """fn(0) .. fn(n - 1), each in a process of its own forked from this one: a search depends on nothing that was searched before"""
    waiting, todo = {}, iter(range(n))
    left = n
    try:
        while left:
            while len(waiting) < max(1, workers):
                i = next(todo, None)
                if i is None:
                    break
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        die_with_parent()
                        os.close(r)
                        b = pickle.dumps(fn(i))
                        while b:
                            b = b[os.write(w, b):]
                    except BaseException:
                        pass
                    finally:
                        os._exit(0)
                os.close(w)
                waiting[r] = (i, pid, [])
            for r in select.select(list(waiting), [], [])[0]:
                b = os.read(r, 1 << 16)
                i, pid, bs = waiting[r]
                if b:
                    bs.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del waiting[r]
                left -= 1
                if bs:
                    yield pickle.loads(b"".join(bs))
                else:
                    yield None
    finally:
        for r, (i, pid, _) in waiting.items():
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)


def _work(i):
    facts, goal, timeout, cv = _JOBS[i]
    r, t, d = check(facts, goal, timeout, slice(0, 1))
    be = "z3"
    if r != "proved" and "counterexample" not in d:
        r, t2, d = check(facts, goal, timeout, slice(1, 2))
        t += t2
        if r == "proved":
            d = "with products uninterpreted"
    if r != "proved" and _FAILED is not None and _FAILED.value >= ENOUGH:
        return i, "failed" if "counterexample" in d else "undecided", t, "short attempt, as %d obligations of this function fail; " % ENOUGH + d, be
    if r != "proved" and "counterexample" not in d:
        t0 = time.time()
        n = variants(facts, goal, min(2, timeout * 0.1))
        if n:
            r, d = "proved", "by search %d" % n
        t += time.time() - t0
    if r != "proved" and "counterexample" not in d:
        t0 = time.time()
        if z3_old(facts, goal, timeout * 0.25) == "unsat":
            r, d, be = "proved", "by another version", "z3-4.8"
        else:
            r, _, d = check(facts, goal, timeout, slice(2, None))
            if r == "proved":
                d = "by a later search"
        t += time.time() - t0
    if r != "proved" and cv:
        t0 = time.time()
        if cvc5_check(facts, goal, cv) == "unsat":
            r, d, be = "proved", "by cvc5", "cvc5"
        t += time.time() - t0
    if r == "failed" and _FAILED is not None:
        with _FAILED.get_lock():
            _FAILED.value += 1
    return i, r, t, d, be


def discharge(obls, timeout=20, workers=8, cvc5=0):
    global _JOBS, _FAILED
    _FAILED = mp.get_context("fork").Value("i", 0)
    _JOBS = [(o.facts + list(o.extra), o.goal, timeout, cvc5) for o in obls]
    if not _JOBS:
        return
    for o in obls:
        o.result, o.time, o.detail, o.backend = "undecided", 0.0, "the process of the solver ended", "z3"
    for x in each(_work, len(_JOBS), workers):
        if x:
            i, r, t, d, be = x
            obls[i].result, obls[i].time, obls[i].detail, obls[i].backend = r, t, d, be


def _cov(i):
    fs, guard = _JOBS[i]
    # satisfiable (or not refutable): at least one of the alternatives
    for f in fs:
        s = solver(2)
        for e in f:
            s.add(e)
        if s.check() != z3.unsat:
            return i, True
    if guard is not None:
        # in a context that is itself contradictory
        s = solver(5)
        s.add(*guard)
        return i, s.check() == z3.unsat
    return i, False


def covers(cs, workers=8):
    """vacuity: names of contexts that are contradictory"""
    global _JOBS
    names, _JOBS = [], []
    bad = []
    for n, f, *g in cs:
        if f is None:
            bad.append(n)
            continue
        names.append(n)
        _JOBS.append((f if f and isinstance(f[0], list) else [f], g[0] if g else None))
    if _JOBS:
        for x in each(_cov, len(_JOBS), workers):
            if x and not x[1]:
                bad.append(names[x[0]])
    return bad
