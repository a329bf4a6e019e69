#!/usr/bin/env python3-vt
"""setup: nothing is built ahead of time; verify that the tools the checks need are present and that the encoder works."""
import os
import shutil
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for t in ("clang++-18", "llvm-link-18", "opt-18", "llvm-dis-18"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
import z3  # noqa: E402
import llvmc  # noqa: E402,F401
x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
if s.check() != z3.unsat:
    sys.exit("z3 does not answer")
import specs  # noqa: E402
print("ok: %d properties configured" % len(specs.SPECS))
