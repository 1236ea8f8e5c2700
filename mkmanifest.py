#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified sources of /repo", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Explicit TLA+ specification in spec/, checked with TLC; drivers in harness/ compile /repo's working tree and record or replay traces."}
for p in props:
    if p in checks.CHECKS:
        level, _, technique, note = checks.entry(p)
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": technique, "level": level, "level_note": note})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
