#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/tools/props/*.json")):
    d = json.load(open(f))
    note, tech = d.pop("level_note", None), d.pop("technique", None)
    why = d.pop("not_applicable", None)
    assert len(d["title"]) <= 80, d["title"]
    props.append(d)
    i = d["id"]
    if why:
        na.append({"property": i, "reason": why})
        continue
    assert os.path.exists(V + "/comps/%s.py" % i.lower()), i
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": "TLA+ specification checked with TLC; " + tech,
                   "level": "model_checking", "level_note": note})
with open(V + "/properties.jsonl", "w") as h:
    for p in props:
        h.write(json.dumps(p) + "\n")
json.dump({"version": 1,
           "setup_cmd": "python3 -c \"import vlib.core\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the drivers use the public API of the library only. "
                    "Properties and this file are written by tools/meta.py from tools/props/."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
