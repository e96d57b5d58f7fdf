#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks of check.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import CHECKS
from notes import TECHNIQUE, NOTE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks drive the public API only. Every check is self-contained; setup only warms the Go build cache."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": "model_checking",
                            "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet (specification in progress)"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
