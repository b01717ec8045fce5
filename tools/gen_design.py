#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
caught = json.load(open(os.path.join(HERE, "plant", "caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    n = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "not caught")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
