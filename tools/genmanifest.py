#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from manifest_table import CLAIMED, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": "contract-based deductive verification (govc: contracts on the real Go code, verification conditions from its SSA form, discharged by z3/cvc5)",
            "level": "proof",
            "level_note": CLAIMED[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
m["notes"] = "Contracts in contracts/*.spec, verifier in govc/, replay and bounded harnesses in harness/. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
