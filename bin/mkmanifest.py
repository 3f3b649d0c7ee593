#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s" % i,
                       "thorough_cmd": "python3 bin/check %s --tier thorough" % i,
                       "technique": p.get("technique", "TLA+ specification checked with TLC: generated behaviours replayed on the real code, recorded traces validated against the specification"),
                       "level": "model_checking",
                       "level_note": p.get("note", props.NOTE)})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check yet: the specification does not cover this part")})
m = {"version": 1, "setup_cmd": "python3 bin/check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all observed state is public API. TLA+/TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
