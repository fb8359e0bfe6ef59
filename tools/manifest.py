#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of built checks."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks.registry import REGISTRY, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
from checks.registry import NOT_APPLICABLE
m = dict(version=1, setup_cmd="bin/setup",
         checks=[dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s thorough" % i,
                      evidence_file="evidence/%s.json" % i,
                      technique=NOTES[i][0], level=REGISTRY[i][0], level_note=NOTES[i][1]) for i in ids if i in REGISTRY],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in REGISTRY],
         notes="TLA+ specifications in spec/, checked with TLC; drivers in harness/ are compiled against /repo's working tree on every run. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
