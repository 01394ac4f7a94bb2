#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from registry import PROPS
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": p.get("technique", "property-based testing: seeded generated cases against an independent "
                                            "reference model, with shrinking to a replay file"),
            "level": "exploration",
            "level_note": p.get("level_note", "Generated-input search; absence of violations is shown only for the "
                                              "explored cases. " + "Trusts the harness's reference model, the compiler, "
                                              "Open MPI and Boost.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction; not claimed yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in m["checks"]])
