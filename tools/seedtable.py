#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
t = "| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
