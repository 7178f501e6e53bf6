"""Writes properties.jsonl and MANIFEST.json from the property table (tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = []
for p in PROPS:
    c = "checks/%s.py" % p["id"].lower()
    assert os.path.exists(os.path.join(V, c)), c
    checks.append({"property": p["id"], "quick_cmd": "python3-vt " + c, "thorough_cmd": "python3-vt " + c,
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -c \"from vlib import facts; facts.extract_all(sorted(facts.TUS))\"",
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks are static analyses of /repo's current source: a libTooling extractor (tool/factx.cpp) dumps the type-resolved syntax tree of every translation unit, and the rules in checks/ decide obligations over value-flow terms computed by abstract interpretation (vlib/). Nothing of /repo is executed. No hooks are used."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
