#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a check, the others under not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CHECKS = json.load(open(V + '/tools/checks.json'))
NA = {}
TECH = "symbolic execution of the real generic code at a symbolic scalar, z3 decides each assertion on every path"
NOTE = ("Bounded model checking: every feasible path of the real code for all inputs within the bounds recorded in the evidence "
        "(numbers of points, dimensions, ranges, iterations); nothing is claimed outside them. Trusts the symbolic scalar's "
        "arithmetic (cross-checked by running every path's witness natively), z3, and the exact-lattice float model. "
        "Violations are replayed natively before they are reported.")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": c.get("technique", TECH),
            "level": "model_checking",
            "level_note": c.get("note", "") + (" " if c.get("note") else "") + (c.get("base", NOTE)),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "checks")
