#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY | --setup     (see DESIGN.md)

For one property: export the MIR of /repo's current tree (two feature sets), generate the proof
obligations of every function under contract for the property and of every function they call by
contract, discharge them, run the bounded harness on the real code, write evidence/PROPERTY.json.
"""
import fcntl, glob, hashlib, importlib, json, os, shutil, subprocess, sys, threading, time, traceback
import multiprocessing as mp

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same obligations, in the same order, on every run; and the same searches (z3 orders some things by address)
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRES_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
sys.path.insert(0, os.path.join(HERE, "verifier"))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
CONFIGS = {"multi": "--features capi,stripper-xml", "single": "--no-default-features --features lhef,stripper-xml"}
HFEAT = {"multi": "multiweight,lhef,stripper-xml,capi", "single": "lhef,stripper-xml"}
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
LOG = []


def log(*a):
    s = "[%6.1fs] " % (time.time() - T0) + " ".join(str(x) for x in a)
    LOG.append(s)
    print(s, flush=True)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        fs = [d] if os.path.isfile(d) else sorted(f for f in glob.glob(d + "/**", recursive=True) if os.path.isfile(f))
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:24]


def repo_hash():
    return tree_hash([REPO + "/src", REPO + "/Cargo.toml", REPO + "/build.rs", REPO + "/Cargo.lock"])


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=e, cwd=cwd, timeout=timeout)


def cargo_env():
    e = {"CARGO_NET_OFFLINE": "true"}
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        if k in os.environ:
            e[k] = ""
    if "RUSTC_WRAPPER" in e:
        del e["RUSTC_WRAPPER"]
    return e


def forget(target, pats):
    """make cargo rebuild: its freshness test goes by modification times, which say nothing here"""
    for d in glob.glob(target + "/*/.fingerprint/*"):
        b = os.path.basename(d)
        if any(b.startswith(p) for p in pats):
            shutil.rmtree(d, ignore_errors=True)
    # layout of newer versions
    for p in pats:
        for d in glob.glob(target + "/*/build/" + p.rstrip("-") + "/*/fingerprint"):
            shutil.rmtree(d, ignore_errors=True)


def ensure_lockfile():
    """Cargo.lock of /repo is git-ignored; the build needs one"""
    if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
        return False
    return True


# ------------------------------------------------------------------ building
def build_exporter():
    src = HERE + "/mirdump/mirdump.rs"
    out = CACHE + "/mirdump"
    with Lock("mirdump"):
        tag = tree_hash([src])
        if os.path.exists(out) and os.path.exists(out + ".tag") and open(out + ".tag").read() == tag:
            return out
        r = sh("rustc +nightly -O --edition 2021 %s -o %s" % (src, out), cwd=HERE + "/mirdump")
        if r.returncode:
            raise RuntimeError("cannot build the MIR exporter:\n" + r.stderr[-2000:])
        open(out + ".tag", "w").write(tag)
    return out


SYSROOT = []


def sysroot():
    if not SYSROOT:
        SYSROOT.append(sh("rustc +nightly --print sysroot").stdout.strip())
    return SYSROOT[0]


def dump(config, rh):
    """MIR of the current tree; cached by content"""
    exe = build_exporter()
    tag = rh + open(exe + ".tag").read()[:8]
    out = "%s/mir-%s-%s" % (CACHE, config, tag)
    with Lock("dump-" + config):
        if os.path.exists(out + "/ok"):
            return out
        for old in glob.glob("%s/mir-%s-*" % (CACHE, config)):
            shutil.rmtree(old, ignore_errors=True)
        tgt = CACHE + "/nt-" + config
        forget(tgt, ["cres-"])
        os.makedirs(out)
        env = cargo_env()
        env.update(MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=sysroot() + "/lib")
        r = sh("cargo +nightly check --offline %s --lib --bins" % CONFIGS[config], env=env, cwd=REPO)
        if not r.returncode and not os.path.exists(out + "/lib-cres.json"):
            # taken for up to date all the same
            shutil.rmtree(tgt, ignore_errors=True)
            r = sh("cargo +nightly check --offline %s --lib --bins" % CONFIGS[config], env=env, cwd=REPO)
        if r.returncode or not os.path.exists(out + "/lib-cres.json"):
            shutil.rmtree(out, ignore_errors=True)
            raise RuntimeError("MIR export failed (%s):\n%s" % (config, r.stderr[-3000:]))
        open(out + "/ok", "w").close()
    return out


def build_harness(config, rh):
    tgt = CACHE + "/ht-" + config
    tag = rh + tree_hash([HERE + "/harness/src", HERE + "/harness/Cargo.toml", HERE + "/harness/Cargo.lock"])
    if REPO != "/repo":
        raise RuntimeError("the harness depends on /repo")
    with Lock("harness-" + config):
        stamp = tgt + "/stamp"
        if os.path.exists(stamp) and open(stamp).read() == tag:
            return tgt + "/debug"
        if os.path.exists(stamp):
            os.unlink(stamp)
        forget(tgt, ["cres-", "cresharness-"])
        forget(tgt + "/repo", ["cres-"])
        errs = []
        for b in glob.glob(tgt + "/debug/harness") + glob.glob(tgt + "/debug/options"):
            os.unlink(b)
        for b in BINS:
            # separately: one may not compile against a changed tree although the other does
            r = sh("cargo build --offline --features %s --bin %s --target-dir %s" % (HFEAT[config], b, tgt), env=cargo_env(), cwd=HERE + "/harness")
            if r.returncode:
                errs.append(b + ":\n" + r.stderr[-3000:])
        if config == "multi":
            r = sh("cargo build --offline --features capi,stripper-xml --bins --target-dir %s" % (tgt + "/repo"), env=cargo_env(), cwd=REPO)
            if r.returncode:
                errs.append("binaries:\n" + r.stderr[-3000:])
        if errs:
            open(tgt + "/errors", "w").write("\n".join(errs))
        else:
            if os.path.exists(tgt + "/errors"):
                os.unlink(tgt + "/errors")
            open(stamp, "w").write(tag)
    return tgt + "/debug"


BINS = ["harness", "options"]


# ------------------------------------------------------------------ proof
def load_crate(path):
    import mir
    return mir.Crate(path)


def is_multi(crate):
    return crate.adts["event::Weights"]["variants"][0]["f"][0]["t"]["p"] != "noisy_float::NoisyFloat"


def verify_one(reg, crate, multi, allc, con, timeout, workers):
    from engine import verify
    from values import Unsupported
    import prove
    r = {"path": con.path, "module": con.module, "bin": getattr(con, "crate", "lib"), "status": "ok", "obls": [], "vacuous": [], "used": [], "inlined": [], "models": [], "covers": 0}
    t = time.time()
    eng = None
    try:
        eng = reg.engine(crate, multi, allc, con)
        verify(eng, con)
    except Unsupported as e:
        r["status"], r["why"] = "unsupported", str(e)
    except Exception as e:
        r["status"], r["why"] = "error", "%s: %s" % (type(e).__name__, e)
        r["trace"] = traceback.format_exc()[-1500:]
    if eng is not None:
        r["used"] = sorted(eng.stats["contracts_used"])
        r["inlined"] = sorted(eng.stats["inlined"])
        r["models"] = sorted(str(m) for m in eng.stats["models"])
        r["trait_assumed"] = sorted(str(m) for m in eng.stats["trait_assumed"])
        r["unrolled"] = sorted("%s loop %s" % u for u in eng.stats["unrolled"])
        r["paths"] = eng.stats["paths"]
    r["gen_s"] = time.time() - t
    if r["status"] == "ok":
        try:
            prove.discharge(eng.obls, timeout, workers)
            bad = [o for o in eng.obls if o.result == "undecided"]
            if bad and len(bad) <= 12:
                prove.discharge(bad, timeout * 2, workers, 10)
            if sum(o.result != "proved" for o in eng.obls) <= 6:
                prove.last_round(eng.obls, 5, workers)
            r["vacuous"] = prove.covers(eng.covers, workers)
            r["covers"] = len(eng.covers)
            for o in eng.obls:
                r["obls"].append({"name": o.name(), "kind": o.kind, "line": o.line, "result": o.result, "time": round(o.time, 3), "backend": o.backend, "detail": o.detail})
        except Exception as e:
            r["status"], r["why"] = "error", "%s: %s" % (type(e).__name__, e)
    r["solve_s"] = sum(o["time"] for o in r["obls"])
    r["wall"] = time.time() - t
    return r


def _proc(q, i, args):
    import prove
    prove.die_with_parent()
    os.setpgid(0, 0)
    try:
        q.put((i, verify_one(*args)))
    except BaseException as e:
        q.put((i, empty(args[4].path, args[4].module, "error", repr(e))))


def kill(p):
    """a verifier process with its workers and solvers"""
    try:
        os.killpg(p.pid, 9)
    except OSError:
        p.terminate()
    p.join(5)


def empty(path, module, status, why):
    return {"path": path, "module": module, "status": status, "why": why, "obls": [], "vacuous": [], "used": [], "inlined": [], "models": [], "covers": 0, "wall": 0, "solve_s": 0}


LIMITS = {"quick": (300, 540), "thorough": (1500, 7200)}     # seconds: for one function; for all of them, from the start of the check


def prove_property(prop, dumps, timeout, found=lambda: False):
    """-> {config: [result per function]}, lemma results; `found`: the harness has failing inputs, so the answer is known"""
    import contracts.registry as reg
    import prove
    from engine import Obligation
    out = {}
    jobs = []
    for config, d in dumps.items():
        allc, crates, multi = reg.load(d, load_crate)
        want = [c for c in allc if prop in c.props]
        out[config] = []
        for c in want:
            jobs.append((config, crates, multi, allc, c))
    done_paths = {(cf, c.path) for cf, _, _, _, c in jobs}
    q = mp.get_context("fork").Queue()
    res = []
    running, nxt, finished = {}, 0, 0
    mw = 5
    each, end = LIMITS[TIER if TIER in LIMITS else "quick"]
    end += T0
    while finished < len(jobs):
        if found():
            end = min(end, time.time() + 60)
            found = lambda: False
        if time.time() > end:
            for i, (p, t) in running.items():
                kill(p)
            for i in list(running) + list(range(nxt, len(jobs))):
                out[jobs[i][0]].append(empty(jobs[i][4].path, "?", "error", "out of time"))
            break
        while nxt < len(jobs) and len(running) < mw:
            cf, crates, multi, allc, c = jobs[nxt]
            cr = crates[getattr(c, "crate", "lib")]
            p = mp.get_context("fork").Process(target=_proc, args=(q, nxt, (reg, cr, multi, allc, c, timeout, 3)))
            p.start()
            running[nxt] = (p, time.time())
            nxt += 1
        try:
            i, r = q.get(timeout=2)
        except Exception:
            for i, (p, t) in list(running.items()):
                if not p.is_alive() and q.empty():
                    p.join()
                    if i in running and q.empty():
                        running.pop(i)
                        finished += 1
                        out[jobs[i][0]].append(empty(jobs[i][4].path, "?", "error", "verifier process died"))
                elif time.time() - t > each:
                    kill(p)
                    running.pop(i)
                    finished += 1
                    out[jobs[i][0]].append(empty(jobs[i][4].path, "?", "error", "out of time"))
            continue
        if i not in running:
            continue
        running.pop(i)[0].join(5)
        finished += 1
        cf, crates, multi, allc, c = jobs[i]
        out[cf].append(r)
        # functions used by contract are verified as well
        for u in r["used"]:
            for c2 in allc:
                if c2.path == u and (cf, u) not in done_paths and not getattr(c2, "inline", False):
                    done_paths.add((cf, u))
                    jobs.append((cf, crates, multi, allc, c2))
    for m, cf, why in reg.BROKEN:
        if prop in reg.PROPS[m].split():
            out[cf].append(empty("module " + m, m, "unsupported", "its contracts cannot be formed on this tree: " + why))
    lem = []
    import contracts.lemmas as L
    obs = [Obligation("lemma", n, "lemma", 0, f, g) for n, f, g in L.PROOFS]
    prove.discharge(obs, timeout, 8)
    for o in obs:
        lem.append({"name": o.name(), "kind": "lemma", "line": 0, "result": o.result, "time": round(o.time, 3), "backend": o.backend, "detail": o.detail})
    return out, lem


# ------------------------------------------------------------------ harness
def run_harness(prop, config, rh, res):
    r = {"ran": False, "failures": [], "known": [], "cases": 0, "nontrivial": 0, "samples": [], "note": ""}
    res[config] = r
    try:
        import hspec
        exe_dir = build_harness(config, rh)
        sp = hspec.SPEC.get(prop, {})
        if config not in sp.get("configs", ["multi", "single"]):
            r["note"] = "not run with this feature set"
            r["skipped"] = True
            return
        exe = os.path.join(exe_dir, sp.get("bin", "harness"))
        if not os.path.exists(exe):
            e = exe_dir + "/../errors"
            r["note"] = "harness does not compile against this tree: " + (open(e).read()[-1500:] if os.path.exists(e) else "?")
            return
        scratch = CACHE + "/scratch-%s-%s-%d" % (prop, config, os.getpid())
        os.makedirs(scratch, exist_ok=True)
        budget = sp.get("budget", 10) if TIER == "quick" else sp.get("thorough", 240)
        try:
            env = {"TMPDIR": scratch, "CRES_BINS": exe_dir + "/../repo/debug"}
            p = subprocess.run([exe, prop, str(SEED), TIER, str(budget)], capture_output=True, text=True, errors="replace",
                               env=dict(os.environ, **env), cwd=scratch, timeout=budget * 5 + 260)
            rc, o, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, o, err = "timeout", (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        r["ran"] = True
        done = False
        for l in o.split("\n"):
            k, _, v = l.partition(" ")
            if k == "CASES":
                r["cases"], r["nontrivial"] = map(int, v.split())
            elif k == "SAMPLE":
                r["samples"].append(json.loads(v))
            elif k == "KNOWN":
                r["known"].append(json.loads(v))
            elif k in ("FAILURE", "STUCK"):
                r["failures"].append(json.loads(v))
            elif k == "DONE":
                done = True
        if not done and not r["failures"]:
            if rc == 4:
                r["ran"] = False
                r["note"] = "harness could not start: " + o[-500:]
            elif rc in (-9, "timeout", 137):
                r["ran"] = False
                r["note"] = "harness was killed (%s)" % rc
            else:
                r["failures"].append("the code under test ended the process (%s): %s" % (rc, (o + err)[-1500:]))
        r["cmd"] = "VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s  (harness: %s %s %d %s %s)" % (SEED, TIER, prop, sp.get("bin", "harness"), prop, SEED, TIER, budget)
    except Exception as e:
        r["note"] = "harness: %s: %s" % (type(e).__name__, str(e)[-1500:])


def main():
    if sys.argv[1:] == ["--setup"]:
        rh = repo_hash()
        ts = []
        errs = []

        def guard(f, *a):
            try:
                f(*a)
            except Exception as e:
                errs.append(str(e))
        for c in CONFIGS:
            ts += [threading.Thread(target=guard, args=(dump, c, rh)), threading.Thread(target=guard, args=(build_harness, c, rh))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for e in errs:
            log(e)
        log("setup done")
        return 1 if errs else 0
    prop = sys.argv[1]
    rh = repo_hash()
    dumps, derr = {}, {}

    def d(c):
        try:
            dumps[c] = dump(c, rh)
        except Exception as e:
            derr[c] = str(e)
    ts = [threading.Thread(target=d, args=(c,)) for c in CONFIGS]
    hres = {}
    hs = [threading.Thread(target=run_harness, args=(prop, c, rh, hres)) for c in CONFIGS]
    for t in ts + hs:
        t.start()
    for t in ts:
        t.join()
    log("MIR exported")
    proofs, lem = {}, []
    perr = None
    try:
        # the solver processes are forked: wait for the harness threads to be in their subprocesses is not needed,
        # the children only compute
        proofs, lem = prove_property(prop, dumps, 10 if TIER == "quick" else 60, lambda: any(r["failures"] for r in list(hres.values())))
    except Exception as e:
        perr = traceback.format_exc()[-2000:]
    log("obligations done")
    for t in hs:
        t.join()
    log("harness done")
    return report(prop, dumps, derr, proofs, lem, perr, hres)


def report(prop, dumps, derr, proofs, lem, perr, hres):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    import hspec
    allo, failed, undec, notok, vac, funcs, trusted = [], [], [], [], [], [], set()
    ntime = 0.0
    backends = {}
    for cf, rs in proofs.items():
        for r in rs:
            funcs.append({"features": cf, "function": r["path"], "status": r["status"], "obligations": len(r["obls"]),
                          "discharged": sum(o["result"] == "proved" for o in r["obls"]), "paths": r.get("paths"), "seconds": round(r["wall"], 2),
                          "solver_seconds": round(r.get("solve_s", 0), 2), "inlined": r["inlined"], "unrolled": r.get("unrolled", [])})
            if r["status"] != "ok":
                notok.append("%s [%s]: %s: %s" % (r["path"], cf, r["status"], r.get("why")))
            if r["vacuous"]:
                vac += ["%s [%s]: %s" % (r["path"], cf, v) for v in r["vacuous"]]
            for o in r["obls"]:
                o = dict(o, features=cf)
                allo.append(o)
            trusted |= set(r["models"]) | set(r.get("trait_assumed", []))
    allo += lem if proofs else []
    for o in allo:
        ntime += o["time"]
        backends[o["backend"]] = backends.get(o["backend"], 0) + (o["result"] == "proved")
        if o["result"] == "failed":
            failed.append(o)
        elif o["result"] != "proved":
            undec.append(o)
    for c, e in derr.items():
        notok.append("MIR export [%s]: %s" % (c, e[-500:]))
    if perr:
        notok.append("verifier: " + perr)
    nprop = sum(1 for f in funcs)
    proved_all = bool(allo) and not failed and not undec and not notok and not vac and nprop > 0
    # ---- harness
    fails = []
    cases = nontriv = 0
    samples = []
    known = []
    hn = []
    for c, r in sorted(hres.items()):
        cases += r["cases"]
        nontriv += r["nontrivial"]
        samples += r["samples"][:2]
        for f in r["failures"]:
            fails.append("[%s] %s" % (c, f))
        known += r["known"]
        if r["note"] and not r.get("skipped"):
            hn.append("%s: %s" % (c, r["note"]))
    ran = [c for c, r in hres.items() if r["ran"]]
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    spec = hspec.SPEC.get(prop, {})
    import models
    tb = ["rustc (nightly) MIR construction and the exporter mirdump/mirdump.rs", "the verification-condition generator verifier/engine.py and its semantics of MIR (DESIGN.md, section 3)",
          "z3 %s" % __import__("z3").get_version_string(), "floating-point arithmetic treated as arithmetic of the real numbers"]
    tb += ["assumed contract of " + m + (": " + models.DOC[m] if m in getattr(models, "DOC", {}) and models.DOC[m] else "") for m in sorted(trusted)]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof" if proved_all else "exploration",
          "coverage": {"obligations": len(allo), "discharged": sum(o["result"] == "proved" for o in allo), "checker_cmd": "VERIF_TIER=%s python3-vt /verif/check.py %s" % (TIER, prop),
                       "trusted_base": tb, "functions_under_contract": funcs, "back_ends": backends, "solver_seconds": round(ntime, 2),
                       "not_discharged": [{k: o[k] for k in ("name", "result", "detail", "features") if k in o} for o in failed + undec], "not_verified": notok, "vacuous": vac,
                       "bounded_check": "not counted as proof: generated inputs on the compiled code",
                       "evaluations": cases, "distinct_nontrivial": nontriv, "rule": spec.get("rule", "see harness"), "samples": samples[:4], "bounded_notes": hn},
          "assumptions": list(spec.get("assumptions", [])) + list(COMMON_ASSUMPTIONS), "wall_s": round(time.time() - T0, 2), "violations": 0}
    code = 0
    rp = HERE + "/evidence/replay-%s.txt" % prop
    line = None
    if fails:
        with open(rp, "w") as f:
            f.write("property %s\nfailing inputs, found by running the code of /repo:\n\n" % prop)
            for x in fails:
                f.write(x + "\n\n")
            for c, r in hres.items():
                f.write("reproduce: " + r.get("cmd", "") + "\n")
            f.write("\nobligations that fail:\n" + "\n".join("%s [%s] %s" % (o["name"], o.get("features"), o["detail"]) for o in failed) + "\n")
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
        code = 1
        ev["violations"] = len(fails)
    elif failed:
        with open(rp, "w") as f:
            f.write("property %s\nobligations that the verifier does not accept (no failing input found by the bounded check):\n\n" % prop)
            for o in failed:
                f.write("%s [features: %s] (%s, line %s)\n    %s\n" % (o["name"], o.get("features"), o["kind"], o["line"], o["detail"]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
        code = 1
        ev["violations"] = len(failed)
    else:
        if os.path.exists(rp):
            os.unlink(rp)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d of %d obligations discharged, %d functions; %d bounded cases (%d distinct non-trivial)" % (prop, ev["coverage"]["discharged"], len(allo), nprop, cases, nontriv))
    for x in notok + vac:
        print("UNDECIDED", x)
    for o in undec + failed:
        print("NOT PROVED (%s) %s [%s]: %s" % (o["result"], o["name"], o.get("features"), o["detail"][:300]))
    for x in hn:
        print("NOTE", x[:800])
    for x in fails[:3]:
        print("FAILING INPUT", x[:1500])
    if not proved_all and code == 0:
        print("the proof is incomplete on this tree; bounded check only (evidence says so)")
    if not ran and code == 0 and not all(r.get("skipped") for r in hres.values()) and not proved_all:
        print("neither proof nor bounded check could decide this tree")
    if line:
        print(line)
    return code


COMMON_ASSUMPTIONS = ["floating-point rounding is not modelled in the proofs: the statements are about real arithmetic (the bounded check compares with tolerances)",
                      "no overflow of f64 to infinity; integer arithmetic is checked against its machine range"]

if __name__ == "__main__":
    sys.exit(main())
