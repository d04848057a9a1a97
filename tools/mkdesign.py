#!/usr/bin/env python3
"""mkdesign.py: the list of the planted bugs, at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
mark = "| bug | property | needs |\n|---|---|---|\n"
rows = ""
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"])
open(p, "w").write(s[:s.index(mark)] + mark + rows)
