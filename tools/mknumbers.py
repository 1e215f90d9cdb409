#!/usr/bin/env python3
"""Prints the table of DESIGN.md: what one quick run of each check covers (from the evidence)
and the builds each check uses (from vf/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import props
print("| property | builds | profiles | quick cases | of them non-trivial | thorough cases |")
print("|---|---|---|---|---|---|")
for i in sorted(props.P):
    p = props.P[i]
    try: c = json.load(open(os.path.join(V, "evidence", i + ".json")))["coverage"]
    except Exception: c = {"evaluations": 0, "distinct_nontrivial": 0}
    print("| %s | %d | %s | %d | %d | ×%d |" % (i, len({j[0] for j in p["jobs"]}), ", ".join(sorted({j[1] for j in p["jobs"]})), c["evaluations"], c["distinct_nontrivial"], p.get("thorough_x", 40)))
