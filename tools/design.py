#!/usr/bin/env python3
"""design.py: rewrites the generated part of DESIGN.md (bounds from the evidence files, seeded changes, fixes)"""
import glob, json, os
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["", "## Bounds of the quick tier (from the last run of every check)", "",
       "Every row was enumerated completely. 'runs' are complete executions of the real code, 'steps' transitions within them,",
       "'distinct' distinct end states or observations.", ""]
for f in sorted(glob.glob(os.path.join(B, "evidence", "C*.json"))):
    d = json.load(open(f))
    out.append("**%s** (%s, %.0f s, %d answers compared with the reference)" % (d["property"], d["tier"], d["wall_s"], d["coverage"].get("traces_validated_against_impl", 0)))
    out += ["", "| scenario | what is enumerated | runs | steps | distinct |", "|---|---|---|---|---|"]
    for s in d["coverage"]["scenarios"]:
        out.append("| %s | %s | %d | %d | %d |" % (s["name"], s["bound"].replace("|", "/"), s["executions"], s["transitions"], s["distinct"]))
    out.append("")
out += ["## Planted changes", "",
        "Each was written from the property's text, compiles, passes the existing tests and has a demonstration; 'first' says whether the check",
        "as it was when the change was planted caught it. All are caught by the present checks unless said otherwise.", "",
        "| change | property | breaks | needs | first |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(B, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d["needs"], d.get("first", "caught")))
k = json.load(open(os.path.join(B, "known_findings.json")))
out += ["", "## Known findings, not repaired", ""] + (["* %s `%s`: %s (%s). %s" % (x["property"], x["key"], x["what"], x["where"], x["why_not_fixed"]) for x in k["findings"]] or ["None at present."])
out += ["", "## Defects found by the checks and repaired (commits in /repo)", ""] + ["* " + x.replace("fixed: property=", "") for x in k["fixed"]]
p = os.path.join(B, "DESIGN.md"); s = open(p).read()
M = "<!-- generated by tools/design.py from here -->\n"
i = s.find(M)
open(p, "w").write((s[:i] if i >= 0 else s.rstrip() + "\n\n") + M + "\n".join(out) + "\n")
