#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
claims = json.load(open(f"{V}/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if c:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": "model_checking",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Bounded exhaustive exploration of the real implementation against a plain reference model; see DESIGN.md.",
}
h = claims.get("hooks")
if h: m["hooks"] = h
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
