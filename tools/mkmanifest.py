#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks (tpsa/checks) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tpsa import checks
for m in checks.GROUPS:
    importlib.import_module("tpsa.checks." + m)
NA = {
 "C31": "Convergence of Newton and of the path over all models is a property of floating-point iterations on runtime values; no static argument in reach bounds it. Its structural preconditions are decided by C03, C07, C08, C10.",
 "C32": "Rounding error over all problem scales is not bounded by any static argument in reach (all checks here use exact arithmetic); the structural part (a recorded solution met the tolerance test) is C07 and C09.",
 "C33": "Pixel contents depend on Matplotlib's rasteriser and imageio's quantiser, outside the source analysed; that each frame is drawn from its increment and written in order is C25, C26, C30.",
}
NOTE = ("Decided from the source on every run: gated value-flow abstract interpretation of the syntax tree of /repo/src/trusspy, "
  "nothing executed. 'held' obligations are equalities of value numbers / gates valid for all inputs in the stated domain; an alarm needs a concrete witness "
  "of a difference of two understood terms; what is not understood is reported as undecided in the evidence, not as an alarm. "
  "Assumes exact arithmetic, the library models in tpsa/lib.py, and unique labels. ")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.REG:
        f, meta = checks.REG[i]
        man["checks"].append({"property": i, "quick_cmd": "python3-vt -m tpsa " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3-vt -m tpsa " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "static analysis (gated value-flow abstract interpretation): " + meta,
            "level": "other", "level_note": NOTE})
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks")
