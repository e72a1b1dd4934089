#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -m py_compile run.py checks.py && clang++ --version",
         checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                      technique=checks.CHECKS[p]["technique"], level=checks.CHECKS[p]["level"], level_note=checks.CHECKS[p]["note"]) for p in props if p in checks.CHECKS],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in checks.CHECKS])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
