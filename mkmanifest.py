#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry in CHECKS are not claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CHECKS = json.load(open(os.path.join(here, "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "One Go module in harness/ (replace => /repo) decides all properties through the public API; no hooks. See DESIGN.md. ./check.sh --replay FILE judges a saved failure again."}
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
