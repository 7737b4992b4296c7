#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property from /repo's current sources"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ("lib", "rules", "checks"):
    sys.path.insert(0, os.path.join(HERE, d))
import common
if len(sys.argv) < 2 or sys.argv[1] == "setup":
    import shutil
    for tool in ("g++-10", "gcc"):
        if not shutil.which(tool):
            sys.exit("missing " + tool)
    print("ok: checks compile what they need from /repo on every run")
    sys.exit(0)
prop = sys.argv[1]
sys.argv = [sys.argv[0]] + sys.argv[2:]
m = importlib.import_module("check_" + prop)
common.main(prop, m.run, getattr(m, "LEVEL", "other"), m.EXPLANATION, getattr(m, "ASSUMPTIONS", ()))
