#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and tools/notes.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props, notes
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS and i in notes.NOTES:
        tech, note = notes.NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "fault_enumeration" if i in props.FAULT else "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every check drives the public interface. Each check builds its harness against /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
