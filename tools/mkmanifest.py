#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i not in props.P:
        continue
    p = props.P[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 vf/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 vf/check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p.get("note", "Holds on every generated case of the run (counts in the evidence); trusts the harness's model and the listed assumptions. A failure is shrunk and replayed three times before it is reported."),
    })
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in props.P]
json.dump({"version": 1, "setup_cmd": "python3 vf/check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is observed through the public interface, link-level stand-ins and build flags the project already has. "
                    "Changes in /repo are fix: commits only; known_findings.txt lists them."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
