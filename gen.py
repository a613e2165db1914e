#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.json."""
import json, os
B = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or []))


S = "stateless model checking of the real code: "
exec(open(os.path.join(B, "props.txt")).read())

checks = json.load(open(os.path.join(B, "checks.json")))
with open(os.path.join(B, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": p["observe"],
                        "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the checks link the unmodified sources of /repo against a controlled "
               "replacement of libst (mc/fakest.cpp) and substitute readers, writers and loggers through the program's own interfaces",
               "source_commits": []},
     "notes": "All checks explore every execution within the bounds listed in their evidence file; nothing is sampled, VERIF_SEED is unused."}
for p in P:
    if p["id"] in checks:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": checks[p["id"]]["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p.get("na", "no check has been built for it yet")})
json.dump(m, open(os.path.join(B, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
