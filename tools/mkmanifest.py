#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from check import REGISTRY
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "python3 tools/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification explored by TLC; transitions replayed in the real code and recorded histories validated against the specification"
                       if i not in NOTES or "technique" not in NOTES[i] else NOTES[i]["technique"],
                       "level": REGISTRY[i][1], "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built yet.")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. The specification is in spec/, the drivers of the real code in harness/. Known and fixed defects: known_findings.txt."}
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
