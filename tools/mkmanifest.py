#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TRUST = ("Holds on the executions counted in the evidence file; trusts the compilers and sanitizer run-times, the "
         "reference model in harness/ and the stated tolerances. Schedules, inputs and histories not generated are not covered.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": TECHNIQUE[i], "level": "exploration", "level_note": TRUST})
    else:
        na.append({"property": i, "reason": "not yet covered: harness under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors sit at the library's own interfaces (SleSolver, OdeSolver, Constraint, "
              "ForceGenerator), in replaced operator new/delete, in an interposed clock and in the sanitizers."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
