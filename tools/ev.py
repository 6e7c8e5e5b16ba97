#!/usr/bin/env python3
"""Prints a summary of an evidence file."""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open("/verif/evidence/%s.json" % p))
    print(p, e["tier"], "seed", e["seed"], "wall", e["wall_s"], "build", e["coverage"]["build_s"], "viol", e["violations"])
    for n, c in e["coverage"]["checks"].items():
        print("  ", n, "evals", c["evaluations"], "nt", c["nontrivial"], "distinct", c["distinct_nontrivial"], "saved", c["saved_cases"], "skipped", c["skipped"], "cpu", c["cpu_s"], "DEADLINE" if c["stopped_by_deadline"] else "")
        print("      ", c["labels"])
