#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and tools/properties.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "..", "lib"), H]
import props, properties
checks, na = [], []
for p in properties.P:
    i = p["id"]
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s quick" % i, thorough_cmd="python3 run.py check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the crate's LLVM IR, assertions decided by z3 (bounded)",
                           level="model_checking",
                           level_note="Every assertion on every path is decided by the SMT solver for all values within the bounds: %s. Outside: %s. "
                                      "Trusted: the engine's IR semantics and file/rayon/thread models, z3; counterexamples and sampled path models are replayed on the native build."
                                      % (q["bounds"]["quick"], q.get("outside", "larger sizes"))))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="Solver-based checking of the real code: see DESIGN.md. No hooks in /repo; the harnesses use the public API only.")
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
