#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json and the last trials (build/trials.json)."""
import json, os, re
R = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
t = json.load(open(R + "/build/trials.json"))
rows = ["| planted | breaks | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, b)))
    c = t.get(b, {})
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), m["property"] if c.get("caught") else "**missed**" if c else "not tried"))
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s)
open(p, "w").write(s)
