#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import registry
NA = {}
f = os.path.join(V, "tools", "na.json")
if os.path.exists(f):
    NA = json.load(open(f))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           technique=s.get("technique", "TLA+ specification checked with TLC; traces of the real code judged by the same specification"),
                           level=s.get("level", "model_checking"),
                           level_note=s.get("note", "TLC checks the property on a bounded model of the component; the real code is bound to the model by replaying its behaviours and by judging every recorded step of random schedules with the specification's guards. Assumes the driver reports faithfully.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check is not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the drivers are compiled into the module with go build -overlay and use exported functions only."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
