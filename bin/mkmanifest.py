#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plans
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "python3 bin/check.py " + i + " thorough",
                       "technique": plans.technique(i), "level": plans.LEVEL, "level_note": plans.note(i)})
    else:
        na.append({"property": i, "reason": plans.NOT_CLAIMED.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
