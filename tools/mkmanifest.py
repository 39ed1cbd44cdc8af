#!/usr/bin/env python3
"""write MANIFEST.json from gaiasa/units.py"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from gaiasa import units
checks = []
for p in sorted(units.PROPS):
    level, note = units.LEVEL[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                       thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=units.TECHNIQUE, level=level, level_note=note))
doc = dict(version=1, setup_cmd="true", checks=checks, not_applicable=units.NOT_APPLICABLE,
           notes="No hooks. Every check rebuilds the LLVM IR of /repo/src and analyses it; nothing is executed.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
