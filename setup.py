#!/usr/bin/env python3
"""Build everything once so that the checks only rebuild what changed in /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import bounded, kani, verus
from vlib.common import *

print("harness: %.1f s" % bounded.build())
r = kani.run_harnesses(["n03_from_f64"], 900, 120)
print("kani: %d proved, %s, %.1f s" % (len(r["proved"]), r["undecided"], r["secs"]))
print("verus deps: %.1f s" % verus.prepare())
sys.exit(0 if r["proved"] else 1)
