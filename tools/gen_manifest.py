#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and tools/claims.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cl = json.load(open(V + "/tools/claims.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = "deductive verification: contracts on the real C++ compiled to LLVM IR, verification conditions generated per path and discharged by Z3; counterexamples replayed on the compiled code"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/harness/%s.cpp" % i) and i in cl["claims"]:
        c = cl["claims"][i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": c.get("technique", T), "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": cl["not_applicable"].get(i, "not reached yet")})
m = {"version": 1, "setup_cmd": "make -s -C engine", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo's headers as they are."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump({k: v["level"] for k, v in cl["claims"].items()}, open(V + "/tools/levels.json", "w"), indent=1)
