#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m} for n, m in p.get("state", [])]},
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE or not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py --quick" % p["id"], "thorough_cmd": "python3 checks/%s.py --thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
claimed = {c["property"] for c in checks} | set(NOT_APPLICABLE)
for p in PROPS:
    if p["id"] not in claimed:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
