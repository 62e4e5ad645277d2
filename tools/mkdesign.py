#!/usr/bin/env python3
"""Replaces the list of planted bugs in DESIGN.md."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
p = ROOT + "/DESIGN.md"
s = open(p).read()
new = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("@@BUGS@@", new) if "@@BUGS@@" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
