#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from tool/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V + "/tool")
import props  # noqa: E402

checks, na, ds = [], [], []
for d, tech, note, reason in sorted(props.P, key=lambda x: x[0]["id"]):
    ds.append(d)
    if tech:
        checks.append({
            "property": d["id"],
            "quick_cmd": "python3 check.py %s quick" % d["id"],
            "thorough_cmd": "python3 check.py %s thorough" % d["id"],
            "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": d["id"], "reason": reason})
with open(V + "/properties.jsonl", "w") as f:
    for d in ds:
        f.write(json.dumps(d) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema  # noqa: E402
jsonschema.validate(json.load(open(V + "/MANIFEST.json")),
                    json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in ds:
    jsonschema.validate(d, s)
    assert os.path.exists(V + "/rules/%s.py" % d["id"].lower()) or d["id"] in [x["property"] for x in na], d["id"]
    assert d["statement"].count(". ") <= 2, d["id"]
print(len(checks), "checks", len(na), "not applicable")
