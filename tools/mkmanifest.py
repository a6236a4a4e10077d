#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from registry import CHECKS, NOT_APPLICABLE
import props
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props.P:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": s.get("technique", "bounded-exhaustive stateless model checking of the real code against a reference model"),
            "level": s.get("level", "model_checking"), "level_note": s["note"]})
    else: m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet for this property (work in progress).")})
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
