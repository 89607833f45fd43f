#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: CLAIMED below, every other property as not applicable.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the Go source (gocv: contracts in /verif/contracts, verification conditions from the typed AST, SMT), counterexamples replayed on the real code"
CLAIMED = {}
def c(id, note, level="proof"):
    CLAIMED[id] = (level, note)
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lv, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECH, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
