#!/usr/bin/env python3
"""MANIFEST.json from the checks present and properties.jsonl"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C34": "Outcome of thousands of floating-point optimisation steps from random initial weights: no bounded symbolic encoding of such a training run is within reach of a solver, and the statement depends on rounding and randomness; sampling runs would be another technique.",
    "C35": "The visualisation mesh is produced by gmsh's C++ library and pictures are rendered by matplotlib; neither can be executed symbolically. What is drawn (as opposed to rendered) is claimed by C37 and C38.",
    "C36": "A statement about running time on real hardware; symbolic execution has no model of time.",
}
NOTE = ("Bounded: every value of the symbolic inputs within the sizes and option combinations stated in the evidence; "
        "real arithmetic with a stated rounding allowance; sizes beyond the bounds are outside the claim.")
TECH = "symbolic execution of the current sources (exact rational functions) with z3 deciding every obligation; counterexamples replayed on the real code"
TECH_TF = "symbolic interpretation of the TensorFlow graphs traced from the current sources, z3 deciding every obligation; counterexamples replayed on the real code"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
        cmd = "/opt/venv/bin/python lib/run.py %s" % i
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough",
                           technique=TECH_TF if "TF_GRAPH" in src else TECH, level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from lib.zload import z3; print(z3.get_version_string())\"",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
