#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ").strip()))
p = root + "/DESIGN.md"
s = open(p).read()
table = "<!-- planted -->\n| change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "<!-- planted -->" in s:
    s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: table, s, flags=re.S)
else:
    s = s.replace("<!-- PLANTED -->", table)
open(p, "w").write(s)
