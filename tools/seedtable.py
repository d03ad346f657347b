"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].strip().rstrip('.')} | check {m['property']}, failing input |")
p = R / "DESIGN.md"
s = p.read_text()
s = re.sub(r"\| bug \| property \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
p.write_text(s)
