#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
p = root + "/DESIGN.md"; s = open(p).read()
a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n| planted bug | caught by | needs |\n|----|----|----|\n" + "\n".join(rows) + "\n" + s[j:])
