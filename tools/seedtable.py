#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    meta = json.load(open(f))
    rows.append((meta["property"], os.path.basename(os.path.dirname(f)), meta["needs"]))
rows.sort()
table = "| check | planted bug | what it needs |\n|---|---|---|\n"
table += "".join("| %s | %s | %s |\n" % (p, i, n.replace("|", "\\|")) for p, i, n in rows)
path = os.path.join(root, "DESIGN.md")
text = open(path, encoding="utf-8").read()
text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + table + m[2], text, flags=re.S)
open(path, "w", encoding="utf-8").write(text)
