#!/bin/bash
# which checks are complete proofs on this tree (run all checks first)
cd "$(dirname "$0")/.." && python3 - <<'P'
import json,glob
for f in sorted(glob.glob("evidence/C*.json")):
    e=json.load(open(f)); c=e["coverage"]
    print(e["property"], e["level"], c["discharged"], "of", c["obligations"])
P
