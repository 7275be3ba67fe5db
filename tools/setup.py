#!/usr/bin/env python3
"""Builds what the checks need: the program, the library monitor and the LD_PRELOAD shims."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "py"))
import common
try:
    common.build_cli()
    common.build_harness()
    for s in ("faultio", "heapmon", "frozen", "outside"):
        common.build_shim(s)
except common.Inconclusive as e:
    sys.exit("setup: %s" % e)
print("setup done")
