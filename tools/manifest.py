#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (run by hand, not by any check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
C = {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
