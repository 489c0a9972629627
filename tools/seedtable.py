#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json"), key=lambda f: int(re.search(r"/s(\d+)", f).group(1))):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
p = R + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n| bug | caught by | needs | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[j:]
open(p, "w").write(s)
