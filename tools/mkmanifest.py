#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/groups.json, properties.jsonl and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
G = json.load(open(V + "/harness/groups.json")); P = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTES = json.load(open(V + "/tools/notes.json"))
NA = NOTES["not_applicable"]
checks = []
for p in P:
    if p in NA or p not in G["props"]: continue
    t, n = NOTES["checks"][p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in P if p not in [c["property"] for c in checks]],
     "notes": "Property-based testing: generated inputs/histories against independent reference implementations; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
