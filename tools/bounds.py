#!/usr/bin/env python3
"""Writes BOUNDS.md from the evidence of the last run of every check."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["# What every check enumerates", "",
     "Written by tools/bounds.py from the evidence files of one run (quick tier); the counts are those of that run.", ""]
for f in sorted(glob.glob(R + "/evidence/*.json")):
    d = json.load(open(f)); c = d["coverage"]
    o.append("## %s" % d["property"]); o.append("")
    o.append(c["rule"] + "."); o.append("")
    o.append("%s tier: %d cases, %d states, %d transitions, %.0f s." % (d["tier"], c["evaluations"], c["states"], c["transitions"], d["wall_s"])); o.append("")
    for x in c["families"]:
        o.append("- **%s** (%d): %s" % (x["name"], x["cases"], x["bound"].replace("|", "\\|")))
    for a in d.get("assumptions", []):
        o.append("- assumes: %s" % a)
    o.append("")
open(R + "/BOUNDS.md", "w").write("\n".join(o))
