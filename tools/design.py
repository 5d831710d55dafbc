"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "### Planted bugs\n"
text = open(V + "/DESIGN.md").read().split(HEAD)[0].rstrip() + "\n\n" + HEAD
text += """
Each passes the stable tests; each is caught by the check of its own property (and often by others). No check reads them.

| seed | property and check | needs | breaks |
|---|---|---|---|
"""
for path in sorted(glob.glob(V + "/seeded/*/meta.json")):
    meta = json.load(open(path))
    text += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(path)), meta["property"], meta["needs"], meta["what_it_breaks"])
open(V + "/DESIGN.md", "w").write(text)
