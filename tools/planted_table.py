#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/notes.json."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
notes = json.load(open(os.path.join(root, "seeded", "notes.json")))
rows = ["| id | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "S*"))):
    m, i = json.load(open(os.path.join(d, "meta.json"))), os.path.basename(d)
    rows.append("| %s | %s | %s (needs %s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], notes.get(i, m["property"])))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- planted -->\n).*(<!-- end planted -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), t, flags=re.S)
open(p, "w").write(t)
