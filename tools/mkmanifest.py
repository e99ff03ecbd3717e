#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
COMMON = "Sound up to the assumptions in the evidence file for all inputs of the analysed functions: the check fails when it cannot decide. Trusts go/types, go/ssa and the analyzer in /verif/analyzer."
T = {
 "E12": "abstract interpretation of Children over go/ssa, compared with the declared sub-nodes under every field combination the grammar allows",
 "E13": "abstract interpretation of Clone over go/ssa; field-by-field comparison of the symbolic heap with the original, by structural induction",
 "E14": "escape/ownership analysis of Clone: freshness of every reachable object in the symbolic heap",
 "E15": "effect analysis (stores, map writes, calls) of Children, Clone, FormattedString and Node",
}
NA = {}
exec(open(os.path.join(here, "techniques.py")).read()) if os.path.exists(os.path.join(here, "techniques.py")) else None
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
            "technique": "static analysis: " + T[i], "level": "other", "level_note": COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not yet claimed")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
