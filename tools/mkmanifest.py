#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from specs import SPECS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                                thorough_cmd="python3 check.py %s thorough" % i,
                                technique=s["technique"], level=s["level"], level_note=s["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "No check has been built for it yet.")))
m["notes"] = ("Each check rebuilds /repo's current sources with address and undefined behaviour "
              "sanitizers into a private scratch directory; no source hooks are used. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
