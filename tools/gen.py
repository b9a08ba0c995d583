#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from props import P
from registry import PROPS, NOT_APPLICABLE, NOTES, HOOKS
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for i in PROPS:
    assert i in ids, i
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [], "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                            "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": s["technique"], "level": s["level"],
                            "level_note": s["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet (planned, see DESIGN.md)")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
