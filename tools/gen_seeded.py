#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeded -->", "| planted bug | property (check that catches it) | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"]))
rows.append("<!-- /seeded -->")
p = root + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
