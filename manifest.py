#!/usr/bin/env python3
# manifest.py: write MANIFEST.json from properties.jsonl, claims.json and props.json
import json, os
d = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(d + "/properties.jsonl")]
cl = json.load(open(d + "/claims.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in cl["claimed"]:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "contract-based deductive verification (contracts on the real Go functions, VCs from go/ssa, SMT)",
            "level": "proof", "level_note": cl["claimed"][i], "theorems": []})
        m["checks"][-1].pop("theorems")
    else:
        m["not_applicable"].append({"property": i, "reason": cl["not_applicable"].get(i, "no contracts yet: work in progress")})
json.dump(m, open(d + "/MANIFEST.json", "w"), indent=1)
open(d + "/MANIFEST.json", "a").write("\n")
