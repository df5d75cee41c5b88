#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
spec = json.load(open(V + "/tools/checks.json"))
checks, na = [], []
for i in ids:
    if i in spec:
        s = spec[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s["technique"], "level": s.get("level", "exploration"),
                       "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": "Check not built yet; the property is not claimed."})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its program with the race detector from /repo's working tree. No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
