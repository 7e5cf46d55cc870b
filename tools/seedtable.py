#!/usr/bin/env python3
"""Prints the table of planted bugs of DESIGN.md."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | needs |\n|---|---|---|")
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
