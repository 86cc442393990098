#!/usr/bin/env python3
"""Maintains known_findings.json: known.py fixed <prop> <commit> <what> | known.py known <prop> <key> <what>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
kind, prop, a, what = sys.argv[1:5]
if kind == "fixed":
    k.append({"status": "fixed", "record": "fixed: property=%s %s %s" % (prop, a, what)})
else:
    k.append({"status": "known", "property": prop, "key": a, "where": json.loads(sys.argv[5]) if len(sys.argv) > 5 else {}, "what": what})
json.dump(k, open(p, "w"), indent=1)
