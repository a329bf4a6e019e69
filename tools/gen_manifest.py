#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/specs.py and the list of properties."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, "engine"))
import specs  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C31": "the SE2, discrete, semi-discrete and composition curves need the minkindr and gtsam expression headers, which are not "
           "in this sandbox (they are not in the package's build either), so the code cannot be compiled to an encodable form; "
           "evaluation of the Slerp SE3 curve is an unconditional failed CHECK ('Not implemented'): there is no behaviour to check "
           "(its knots are C33)",
}
NOTE = ("Every path of the harness through the real code is executed symbolically on LLVM IR generated from /repo on each run; doubles are "
        "modelled as exact reals (rounding is outside), assertions are decided by polynomial identity or by z3 for all values within the stated "
        "bounds, and a counterexample is only reported after it fails again in a native (AddressSanitizer) build of the real code. Trusted: clang, "
        "the engine's IR semantics and library models (spot-checked against native runs each time), z3.")
checks = []
na = []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        note = NOTE
        if s.get("note"):
            note += " " + s["note"]
        note += " Outside the bounds: " + s["outside"] + "."
        checks.append({"property": i, "quick_cmd": "python3-vt engine/check.py %s quick" % i,
                       "thorough_cmd": "python3-vt engine/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", "symbolic execution of the compiled source (LLVM IR) with SMT-decided assertions (z3), counterexamples replayed natively"),
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3-vt engine/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Harnesses in harness/, engine in engine/, bounds in engine/specs.py. See DESIGN.md and KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
