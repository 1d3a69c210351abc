"""Writes /verif/MANIFEST.json from the table below and the properties that have a driver module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contracts on the real functions; verification conditions generated from /repo's source (PyVC), discharged by z3"
NOTE = {}
LEVEL = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(HERE, "props", p + ".py")):
        checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH.get(p, T), "level": LEVEL.get(p, "proof"), "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "./run.sh -c 'import z3, dissect.volume, dissect.cstruct, dissect.util'", "checks": checks,
     "not_applicable": na,
     "notes": "PyVC (pyvc/) interprets the functions of /repo symbolically on every run; no hooks in /repo. Known findings: known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
