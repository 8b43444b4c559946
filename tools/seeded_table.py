#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import json, os
root = os.path.join(os.path.dirname(__file__), "..", "seeded")
print("| change | check | what it needs to manifest |\n|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"]))
