#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
mark = "<!-- table made by mktable.py -->"
s = open(H + "/DESIGN.md").read().split(mark)[0] + mark + "\n\n| planted bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for p in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(p))
    c = lambda t: str(t).replace("|", "/").replace("\n", " ")
    s += "| %s | %s | %s | %s |\n" % (p.split("/")[-2], c(m["property"]) if m.get("caught", True) else "**missed**", c(m["what_it_breaks"]), c(m["needs"]))
open(H + "/DESIGN.md", "w").write(s)
