#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties (lib/hspec.py CLAIMED / NOT_APPLICABLE)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/lib")
import hspec
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for p in props:
    if p in hspec.CLAIMED:
        c = hspec.CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
                       "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"]})
na = [{"property": p, "reason": hspec.NOT_APPLICABLE.get(p, "no contract for the functions behind it has been completed yet")} for p in props if p not in hspec.CLAIMED]
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md; KNOWN_FINDINGS lists repaired and recorded defects"}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
