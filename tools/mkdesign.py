#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from tools/plants.json."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
t = json.load(open(R + "/tools/plants.json"))
rows = ["| change | property | reported by | needs |", "|--|--|--|--|"]
for k in sorted(t, key=lambda k: (t[k]["property"], k)):
    rows.append("| %s | %s | %s | %s |" % (k, t[k]["property"], t[k]["caught_by"], t[k]["needs"]))
p = R + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- planted -->\n", "<!-- /planted -->"
tab = b + "\n".join(rows) + "\n" + e
s = s.replace("@TABLE@", tab) if "@TABLE@" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda m: tab, s, flags=re.S)
open(p, "w").write(s)
