#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks listed here."""
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(base + '/properties.jsonl')]
exec(open(base + '/tools/claims.py').read())
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check for it is not built yet")})
m["notes"] = "All checks are one static analyser (checker/), which loads /repo's current source on every run and executes none of it."
json.dump(m, open(base + '/MANIFEST.json', 'w'), indent=1)
