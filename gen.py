#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
from props import PROPS, NA, COMMITS
with open("properties.jsonl", "w") as o:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        o.write(json.dumps(q) + "\n")
m = {
    "version": 1,
    "setup_cmd": "make -C tool -j8",
    "checks": [{
        "property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static: /repo is compiled to LLVM bitcode in a scratch directory and inspected, never run. No hooks are needed in /repo. Genuine defects found are repaired by the 'fix:' commits listed in known-findings.txt.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
