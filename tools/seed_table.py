#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between its two marks), from seeded/*/meta.json and caught.txt."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
caught = dict(l.split(None, 1) for l in open("tools/seeds/caught.txt") if l.strip())
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(i, "not tried yet").strip()))
s = open("DESIGN.md").read()
a, b = "<!-- seeds -->", "<!-- end of seeds -->"
s = re.sub(re.escape(a) + ".*" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open("DESIGN.md", "w").write(s)
