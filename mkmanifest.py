#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules present"""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(here, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    note = re.search(r'^NOTE = \((.*?)\)\n', open(f).read(), re.S | re.M)
    note = eval("(" + note.group(1) + ")") if note else ""
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt run.py %s" % i,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing (Hypothesis): generated cases against an independent oracle",
        "level": "exploration",
        "level_note": (note or "Holds on all generated cases; no guarantee beyond them.") +
                      " Trusts the oracle in checks/%s.py and numpy." % i.lower()})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "The code under test needs PyPy + numpy 1.23 (/opt/pypyvenv); Hypothesis runs in python3-vt. "
                    "No hooks in /repo; /repo carries only fix: commits, listed in known_findings.txt."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
