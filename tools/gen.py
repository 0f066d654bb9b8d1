#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
out, checks, na = [], [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    })
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na}, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out: jsonschema.validate(o, sc)
    print("valid:", len(out), "properties,", len(checks), "checks")
except ImportError:
    print("written (no jsonschema)")
