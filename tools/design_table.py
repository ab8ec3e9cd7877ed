#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json ('note' tells what was strengthened)"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m.get("note", m["property"])))
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(x.replace("||", "\\|\\|") for x in rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
