"""Loading and pretty-printing of the MIR that mirdump/mirdump.rs exports."""
import json


def tyname(t):
    if t is None:
        return "?"
    k = t["k"]
    if k == "adt":
        a = ",".join(tyname(x) for x in t.get("a", []))
        return t["p"] + ("<%s>" % a if a else "")
    if k in ("int", "float"):
        return t.get("n") or k
    if k in ("bool", "char", "str", "never"):
        return k
    if k == "ref":
        return ("&mut " if t.get("m") else "&") + tyname(t["t"])
    if k == "ptr":
        return "*" + tyname(t["t"])
    if k == "slice":
        return "[%s]" % tyname(t["t"])
    if k == "array":
        return "[%s;%s]" % (tyname(t["t"]), t.get("n"))
    if k == "tuple":
        return "(%s)" % ",".join(tyname(x) for x in t["a"])
    if k == "param":
        return t["n"]
    if k == "closure":
        return "{%s}" % t["key"]
    return json.dumps(t)


def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s += "@%s" % e[1]
        else:
            s += "{%s}" % ",".join(map(str, e))
    return s


def const(k):
    for f in ("int", "bool", "f64", "str", "bytes"):
        if f in k:
            return repr(k[f])
    if "item" in k:
        return "const " + str(k["item"])
    ty = k.get("ty", {})
    if ty.get("k") == "fndef":
        return "fn " + json.dumps(ty.get("f", {}).get("p"))
    return json.dumps({a: b for a, b in k.items() if a != "ty"}) + ":" + tyname(ty)[:60]


def op(o):
    if "c" in o:
        return pl(o["c"])
    if "m" in o:
        return "move " + pl(o["m"])
    return const(o["k"])


def rv(r):
    k = r[0]
    if k == "use":
        return op(r[1])
    if k == "ref":
        return "&%s %s" % (r[1], pl(r[2]))
    if k == "bin":
        return "%s(%s,%s)" % (r[1], op(r[2]), op(r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], op(r[2]))
    if k == "discr":
        return "discr(%s)" % pl(r[1])
    if k == "cast":
        return "cast %s %s as %s" % (r[1], op(r[2]), tyname(r[3]))
    if k == "agg":
        a = r[1]
        n = a["k"] + (":" + a["p"] + "#" + str(a["v"]) if a["k"] == "adt" else "") + (":" + a["key"] if a["k"] == "closure" else "")
        return "%s(%s)" % (n, ", ".join(op(x) for x in r[2]))
    if k == "repeat":
        return "[%s; %s]" % (op(r[1]), r[2])
    return json.dumps(r)


def callee(c):
    if "dynop" in c:
        return "dyn " + op(c["dynop"])
    s = c["p"] + ("::<%s>" % ",".join(tyname(x) for x in c.get("a", [])) if c.get("a") else "")
    if c.get("r"):
        s += "  => " + c["r"]["p"] + (" [L]" if c["r"].get("local") else "")
    elif c.get("local"):
        s += " [L]"
    return s


def show(b, fn=None):
    out = []
    names = {}
    for d in b["debug"]:
        v = d["v"]
        names.setdefault(pl(v) if isinstance(v, list) else "const", []).append(d["n"])
    out.append("  debug " + str(names))
    for i, t in enumerate(b["locals"]):
        out.append("  let _%d: %s" % (i, tyname(t)[:150]))
    for i, bl in enumerate(b["blocks"]):
        if bl.get("cleanup"):
            continue
        out.append("  bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                out.append("    %s = %s" % (pl(s[1]), rv(s[2])))
            elif s[0] == "dead":
                pass
            else:
                out.append("    " + json.dumps(s))
        t = bl["t"]
        if t[0] == "call":
            out.append("    %s = call %s(%s) -> %s" % (pl(t[3]), callee(t[1]), ", ".join(op(x) for x in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (op(t[1]), t[2], t[3]))
        elif t[0] == "assert":
            out.append("    assert %s == %s %s -> %s" % (op(t[1]), t[2], t[3], t[5]))
        elif t[0] == "drop":
            out.append("    drop %s -> %s" % (pl(t[1]), t[2]))
        else:
            out.append("    " + json.dumps(t))
    return "\n".join(out)


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.bypath = {}
        for b in d["bodies"]:
            self.bypath.setdefault(b["path"], []).append(b)
        self.adts = d["adts"]


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    if len(sys.argv) == 2:
        for k, b in c.bodies.items():
            print(b["path"], "|", k, "|", b.get("implself") and tyname(b["implself"]))
    else:
        for k, b in c.bodies.items():
            if sys.argv[2] in k or sys.argv[2] in b["path"]:
                print("FN", b["path"], k, "kind", b["kind"], b["file"], b["line"])
                print(show(b["body"]))
                for i, p in enumerate(b.get("promoted") or []):
                    print(" promoted", i)
                    print(show(p))
