#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the claims below and properties.jsonl.
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
C = {}  # id -> (technique, note)
N = {}  # id -> reason
exec(open(os.path.join(d, "tools", "claims.py")).read())
checks = [dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
    evidence_file="evidence/%s.json" % i, technique=C[i][0], level="other", level_note=C[i][1]) for i in ids if i in C]
na = [dict(property=i, reason=N.get(i, "not claimed yet: its analysis is under construction")) for i in ids if i not in C]
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
    notes="All checks are one program (checker/) that type-checks /repo, builds its SSA form and analyses it; nothing of /repo is executed.")
with open(os.path.join(d, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
