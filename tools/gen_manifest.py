#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --self-check", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "model checking: " + c["technique"], "level": "model_checking",
            "level_note": "Holds on every execution within these bounds: " + c["bounds"] + ". Assumes: " + "; ".join(c["assumptions"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m["notes"] = "See DESIGN.md. Findings: KNOWN_FINDINGS.txt."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
