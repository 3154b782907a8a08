#!/usr/bin/env python3
"""Writes MANIFEST.json. A property listed in TECH is claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '../properties.jsonl'))]
exec(open(os.path.join(here, 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        tech, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The harness (harness/, proptest) decides the properties; C08 also generates and compiles a program (macros08/); see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(here, '../MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
