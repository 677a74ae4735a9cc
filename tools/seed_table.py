#!/usr/bin/env python3
"""Developer tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. usage: seed_table.py [results.json]
results.json: {"<id>": ["C01", ...]} = the quick checks seen to report the bug (its own property's first)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R = json.load(open(os.path.join(V, "tools", "seed_results.json")))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json")); r = R.get(d, [])
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), ", ".join(r) if r else "**none**"))
t = "<!-- seeded -->\n| planted bug | needs, to manifest | reported by (quick) |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->"
p = V + "/DESIGN.md"; s = open(p).read()
if "<!-- seeded -->" in s: s = s[:s.index("<!-- seeded -->")] + t + s[s.index("<!-- /seeded -->") + len("<!-- /seeded -->"):]
else: s = s.replace("## Findings\n", "## Planted bugs\n\n" + t + "\n\n## Findings\n")
open(p, "w").write(s)
