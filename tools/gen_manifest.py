#!/usr/bin/env python3
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="TDZDD_VERIF_NONE", enable="no hooks: the checks use /repo's public headers and programs as they are", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Property-based testing with choice-sequence shrinking; see DESIGN.md. Replay a failure with: python3 check.py --replay <file>")
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"] + " --tier quick",
        thorough_cmd="python3 check.py " + p["id"] + " --tier thorough",
        evidence_file="evidence/%s.json" % p["id"], technique=c.get("technique", "property-based testing against a reference model"),
        level="exploration", level_note=c.get("note", "Randomised search with shrinking; no violation found on the explored cases. " + "; ".join(c.get("assumptions", [])))))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
