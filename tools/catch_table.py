#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md. usage: catch_table.py RESULTS... (outputs of run_seeds.sh own)"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) own=(\S+) (caught|MISSED) by:(.*) \((\d+)s\)", l)
        if m:
            got[m[1]] = (m[3], m[4].split(), m[5])
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i, d = os.path.basename(os.path.dirname(f)), json.load(open(f))
    s = got.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], "not run" if not s else "missed" if s[0] == "MISSED" else "%s, %s s" % (" ".join(s[1]), s[2])))
p = V + "/DESIGN.md"
t = open(p).read()
mark = "<!-- table of planted bugs, written by tools/catch_table.py -->\n"
t = t.split(mark)[0] + mark + "\n| bug | property | needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
