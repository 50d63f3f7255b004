#!/usr/bin/env python3
"""Writes specs/*.json and MANIFEST.json from the tables below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
NA = {}

TECH = "symbolic execution of the Go SSA of the real code, SMT (z3) verdict over all values within bounds, counterexamples replayed natively"
CONC = "symbolic execution of the Go SSA of the real code with the schedule as decision variables (all interleavings within a context-switch bound), SMT (z3) for data, counterexample schedules re-executed"

def R(h, claim, quick=None, thorough=None, reach=None, **kw):
    d = {"harness": h, "claim": claim}
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    if reach: d["reach"] = reach
    # What never ends is a violation everywhere.
    kw.setdefault("opts", {"mustTerminate": 1, "maxSteps": 20000000} if h.startswith("heng.") else {"mustTerminate": 1})
    d.update(kw)
    return d

def P(id, bounds, outside, note, *runs, assumptions=None, technique=TECH):
    S[id] = {"property": id, "technique": technique, "level_note": note, "bounds": bounds, "outside": outside,
             "assumptions": (assumptions or []), "runs": list(runs)}

exec(open(os.path.join(V, "tools", "specs.py")).read())

os.makedirs(V + "/specs", exist_ok=True)
for f in glob.glob(V + "/specs/*.json"):
    os.unlink(f)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in S:
        json.dump(S[i], open(f"{V}/specs/{i}.json", "w"), indent=1)
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": S[i]["technique"], "level": "model_checking",
                       "level_note": S[i]["level_note"]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")} for p in props if p["id"] not in S]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are laid over internal/zzverif by go/packages and 'go build -overlay'."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
