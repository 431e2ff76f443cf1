#!/usr/bin/env python3
"""Warm-up: compiles every driver once (their results are not kept; each check rebuilds from /repo's working tree)
and has SANY parse every specification."""
import os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from lib import vf
c = vf.Check("setup", "quick", 1)
try:
    for d in sorted(os.listdir(os.path.join(V, "harness", "cmd"))):
        c.build(d); print("built", d)
finally:
    c.cleanup()
