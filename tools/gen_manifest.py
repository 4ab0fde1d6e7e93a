#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "inputs": "explicit-state model checking of the real code: exhaustive enumeration of all bounded inputs/operation sequences against an independent reference model",
    "env": "stateless model checking of the real code in virtual time: exhaustive enumeration of all bounded environment behaviours (segmentation, faults, timing, histories) against a reference model",
    "sched": "stateless model checking of the real code under a controlled scheduler: all interleavings up to a preemption bound, plus all bounded environment behaviours",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "technique": TECH[c.get("tech", "inputs")], "level": "model_checking",
                       "level_note": "exhaustive within the stated bounds: " + c["bounds"],
                       "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none: no hook is compiled into /repo; harnesses, scheduling points and fault hooks go in through a go build overlay", "enable": "go test -c -overlay (check.py builds the overlay from the current tree)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
