#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md: bugtable.py < output of seedcheck.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in sys.stdin:
    f = [x.strip() for x in l.split(" | ")]
    r = [x for x in f if x.endswith((": caught", ": MISSED"))]
    if r: res[f[0]] = ", ".join(r)
print("| bug | property | needs | breaks | quick check |\n|---|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    print("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["needs"]), c(m["what_it_breaks"]), "?" if i not in res else res[i].split("]: ")[-1]))
