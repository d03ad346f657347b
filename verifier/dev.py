"""development driver: python3 dev.py DUMP module[:name-substring] ..."""
import sys, time, importlib, traceback
import z3
sys.setrecursionlimit(20000)
sys.path.insert(0, ".")
import mir
from engine import *
import models, prove
from values import Unsupported
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("dump"); ap.add_argument("mods", nargs="+")
ap.add_argument("-s", action="store_true", help="print what is slow or not found at once"); ap.add_argument("-v", action="store_true"); ap.add_argument("-t", type=float, default=20)
ap.add_argument("-n", action="store_true", help="no discharge")
ap.add_argument("-c", type=float, default=0)
ap.add_argument("-T", action="store_true", help="traceback")
a = ap.parse_args()
import os
import contracts.registry as reg
allc, crates, multi = reg.load(os.path.dirname(a.dump), mir.Crate)
for x in reg.BROKEN: print("BROKEN", x)
for m in a.mods:
    mod, _, sub = m.partition(":")
    for con in allc:
        if con.module != mod or sub not in con.path:
            continue
        crate = crates[getattr(con, "crate", "lib")]
        eng = reg.engine(crate, multi, allc, con)
        t = time.time()
        try:
            verify(eng, con)
        except Unsupported as e:
            print("UNSUPPORTED", con.path, ":", e, "line", eng.line, eng.cache.get("stack"))
            print("   ", eng.stats.get("notforeach"))
            if a.T: traceback.print_exc()
            continue
        print("%s: %d obligations, %d paths, %.1fs (feas %d, %.1fs)" % (con.path, len(eng.obls), eng.stats["paths"], time.time() - t, eng.stats["feas"], eng.stats["feas_s"]))
        if a.n:
            continue
        prove.discharge(eng.obls, a.t, 8, a.c)
        for o in eng.obls:
            if o.result != "proved" or a.v or a.s and (o.detail or o.time > 1):
                print("   ", o.result, "%.1fs" % o.time, o.backend, o.name(), "line", o.line, o.kind)
                if o.detail:
                    print("        ", o.detail[:600])
        print("    %d proved of %d, solver %.1fs, max %.1fs" % (sum(o.result == "proved" for o in eng.obls), len(eng.obls), sum(o.time for o in eng.obls), max([o.time for o in eng.obls] + [0])))
        bad = prove.covers(eng.covers)
        if bad:
            print("    VACUOUS", bad)
if "lemmas" in a.mods:
    from contracts.lemmas import PROOFS
    obs = [Obligation("lemma", n, "lemma", 0, f, g) for n, f, g in PROOFS]
    prove.discharge(obs, a.t, 8, a.c)
    for o in obs: print(o.result, "%.2f" % o.time, o.label, o.detail[:200] if o.result != "proved" else "")
