#!/usr/bin/env python3
"""check.py P01 [--thorough]: decides a property on /repo's working tree (see DESIGN.md)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
pid = sys.argv[1]
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
if pid == "setup":
    import vlib
    print("built in", vlib.build())
    sys.exit(0)
import importlib, vlib
m = importlib.import_module(pid.lower())
vlib.main(pid, m.check, getattr(m, "LEVEL", "model_checking"))
