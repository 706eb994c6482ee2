#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=p, quick_cmd="python3 run.py check %s --tier quick" % p,
                      thorough_cmd="python3 run.py check %s --tier thorough" % p,
                      technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["note"])
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CHECKS],
         notes="TLA+ with TLC. Specifications in spec/, harnesses (compiled into /repo's module with a go overlay, no change to /repo) in harness/, runner run.py. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
