#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, TECH
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[], not_applicable=[],
         notes="Every check builds a test binary from /repo's working tree (overlay, no change to /repo) and runs 8 shards of "
               "rapid generators against an oracle; exit 0 quiet, exit 1 with VIOLATION, exit 3 when the check itself failed. "
               "check.py <id> --replay FILE re-runs a saved case. See DESIGN.md.")
for c in sorted(CHECKS):
    tech, note = TECH[c]
    m["checks"].append(dict(property=c, quick_cmd="python3 check.py %s quick" % c, thorough_cmd="python3 check.py %s thorough" % c,
                            evidence_file="evidence/%s.json" % c, technique=tech, level="exploration", level_note=note))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
for p in props:
    if p not in CHECKS:
        m["not_applicable"].append(dict(property=p, reason="check still being built"))
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
