#!/usr/bin/env python3
"""record.py check ID harness.cpp | record.py fixed "property=.. commit what": edits checks.json / known_findings.json"""
import json, os, sys
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == "check":
    p = os.path.join(B, "checks.json"); c = json.load(open(p)); c[sys.argv[2]] = {"harness": sys.argv[3], "level": "model_checking"}
else:
    p = os.path.join(B, "known_findings.json"); c = json.load(open(p)); c["fixed"] += ["fixed: " + a for a in sys.argv[2:]]
json.dump(c, open(p, "w"), indent=1)
