#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the <!-- catch --> markers) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}  # id -> why, for a planted bug no check sees
rows = ["| planted bug | needs | caught by (quick) |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), missed.get(d, m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- catch -->\n).*?(<!-- /catch -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
