#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "checks"))
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "hooks": registry.HOOKS,
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/ are explored by TLC; the Rust harness in conf/ replays their behaviours against /repo and records runs that TLC validates. See DESIGN.md."}
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "Check not built yet.")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
