#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} --thorough",
                   "technique": c.get("technique", "Verus contracts on functions extracted mechanically from /repo on every run; bounded real-code harness supplies failing inputs"),
                   "level": c.get("level", "proof"), "level_note": c["note"], "evidence_file": f"evidence/{i}.json"})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the machinery reads /repo's source and builds it as it is", "source_commits": []},
     "notes": "See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
