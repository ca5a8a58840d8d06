#!/usr/bin/env python3
"Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    by.setdefault(m["property"], []).append(d)
rows = ["| check | planted bugs it was written for |", "|---|---|"]
for c in sorted(by):
    rows.append(f"| {c} | {', '.join(by[c])} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- end bugs -->")
s = s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
print(sum(map(len, by.values())), "planted bugs")
