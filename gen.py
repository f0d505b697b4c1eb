#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/spec.py and lib/props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(D, "lib"))
sys.path.insert(0, D)
import spec, props
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for s in spec.S:
        assert len(s["title"]) <= 80, s["title"]
        f.write(json.dumps(dict(id=s["id"], title=s["title"], statement=s["statement"],
            quantifier=dict(over=s["over"], text=s["text"]), why_tests_cant=s["why"],
            anchors=dict(files=s["files"], mechanism=[dict(name=a, where=b) for a, b in s["mech"]], observe_at=s["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for s in spec.S:
    if s["id"] in props.TABLE:
        e = props.TABLE[s["id"]]
        checks.append(dict(property=s["id"], quick_cmd="python3 run.py check %s quick" % s["id"],
            thorough_cmd="python3 run.py check %s thorough" % s["id"], technique=e.get("tech") or "sanitized execution with reference-model monitor",
            level="exploration", level_note=e.get("note") or props.NOTE))
    else:
        na.append(dict(property=s["id"], reason=s["na"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na), open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
