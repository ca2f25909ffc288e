"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property (caught by) | needs |")
print("|---|---|---|")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    print("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"]))
