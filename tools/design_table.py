#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md"""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | property and check that catches it | needs |\n|---|---|---|")
for d in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, d, "meta.json")))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|")))
