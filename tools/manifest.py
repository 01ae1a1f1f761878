#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1,
     "setup_cmd": "bin/check --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the harnesses link the repository's own libraries and interpose at link time (-Wl,--wrap)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "bin/check ID [quick|thorough] builds out of tree in /verif/.build (ignored by git) from /repo's working tree; KNOWN_FINDINGS lists known and fixed defects; bin/check --replay FILE replays a violation."}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i,
            "thorough_cmd": "bin/check %s thorough" % i, "technique": c["technique"],
            "level": c["level"], "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "planned (see DESIGN.md); its check is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
