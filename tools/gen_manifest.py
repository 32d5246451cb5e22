#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a binary under harness/src/bin."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
meta = json.load(open(f"{R}/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{R}/harness/src/bin/{i.lower()}.rs") and i in meta:
        m = meta[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": meta.get("_na", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": meta["_notes"]}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
