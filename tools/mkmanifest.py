#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and registry.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        group, o = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": o.get("technique", "property-based testing (rapid) against a reference model"),
            "level": o.get("level", "exploration"),
            "level_note": o.get("note", "Generated-input search against an explicit oracle; no guarantee beyond the cases explored.") ,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "./check --warm", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses enter the module through a go build overlay (internal/zzverif). Defects repaired by fix: commits and known findings are listed in known-findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
