#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two markers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted bug | What it breaks | Needs | Caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].strip(), m["needs"].strip(), m["property"]))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
