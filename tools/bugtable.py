#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json and tools/missed.json)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(ROOT + "/tools/missed.json"))
rows = ["| bug | caught by | breaks | first missed; strengthened by |", "|---|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), missed.get(i, "")))
p = ROOT + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", t, flags=re.S)
open(p, "w").write(t)
