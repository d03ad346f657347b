"""All contracts, and the construction of an engine for one function."""
import importlib
from engine import *
from values import Unsupported
import models

MODULES = ["weights", "cell", "seeds", "resampler", "vptree", "search", "fourvec", "partition", "event", "unweight", "building", "collector", "clustering", "distance", "cres", "io", "capi", "options", "classify", "text", "formats", "hepmc", "records", "scaling", "dispatch", "settings", "builders"]


# which properties a module's contracts are about: they are undecided when its contracts cannot be formed
PROPS = {"weights": "C01 C02 C03 C08 C09 C07", "cell": "C01 C02 C03", "seeds": "C08", "resampler": "C01", "vptree": "C04 C05 C10", "search": "C04",
         "fourvec": "C19 C07", "partition": "C10", "event": "C02 C03 C08 C09", "unweight": "C09", "building": "C07", "collector": "C16", "clustering": "C15", "distance": "C06", "cres": "C11", "io": "C12", "capi": "C17", "options": "C18", "classify": "C20", "text": "C13 C14", "formats": "C13 C14", "hepmc": "C13", "records": "C14", "scaling": "C14", "dispatch": "C13 C14", "settings": "C03 C08", "builders": "C08 C09 C11 C12 C13 C14 C15 C17"}
BROKEN = []      # (module, features, why)


def load(dumpdir, load_crate):
    """-> contracts, crates by name, feature set"""
    import glob, os
    crates = {"lib": load_crate(dumpdir + "/lib-cres.json")}
    for f in sorted(glob.glob(dumpdir + "/bin-*.json")):
        crates[os.path.basename(f)[:-5]] = load_crate(f)
    crate = crates["lib"]
    multi = crate.adts["event::Weights"]["variants"][0]["f"][0]["t"].get("p") != "noisy_float::NoisyFloat"
    return contracts(crate, multi, crates), crates, multi


def contracts(crate, multi, crates=None):
    out = []
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        try:
            cs = list(mod.contracts(crate, multi))
            if crates and hasattr(mod, "bincontracts"):
                # functions of the command line tools
                cs += list(mod.bincontracts(crates, multi))
        except (Unsupported, KeyError, ValueError, IndexError, AttributeError, TypeError) as e:
            BROKEN.append((m, "multi" if multi else "single", "%s: %s" % (type(e).__name__, e)))
            continue
        for c in cs:
            c.module = m
            if not getattr(c, "config", None) or c.config == ("multi" if multi else "single"):
                out.append(c)
    return out


def engine(crate, multi, allc, con):
    eng = Engine(crate, "multi" if multi else "single")
    eng.multi = multi
    eng.models = dict(models.MODELS)
    eng.foreach_rule = lambda st, fr, bb: models.foreach_rule(eng, st, fr, bb)
    for c in allc:
        if getattr(c, "crate", "lib") != getattr(con, "crate", "lib"):
            continue
        if c.path in getattr(con, "without", ()):      # replaced by a model of this contract that records the call
            continue
        if getattr(c, "inline", False) and c is not con and c.path not in getattr(con, "uses", ()):
            continue
        if c is con and not con.decreases:
            continue
        eng.contracts[c.path] = c
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        eng.models.update(getattr(mod, "MODELS", {}))
        for (p, i), sp in getattr(mod, "LOOPS", {}).items():
            eng.loopspecs[(p, i)] = sp
    for k, v in getattr(con, "models", {}).items():
        eng.models[k] = v
    eng.foreach_specs.update(getattr(con, "foreach", {}))
    eng.divzero = getattr(con, "divzero", False)
    eng.tyover = dict(getattr(con, "tyover", {}) or {})
    return eng
