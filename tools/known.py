#!/usr/bin/env python3
"""known.py PROP COMMIT WHAT: record a repaired defect in known_findings.jsonl"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
prop, commit, what = sys.argv[1:4]
with open(p, "a") as f:
    f.write(json.dumps({"property": prop, "key": "", "status": "fixed", "what": f"fixed: property={prop} {commit} {what}"}) + "\n")
