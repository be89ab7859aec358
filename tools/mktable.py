#!/usr/bin/env python3
"""mktable.py (development only): rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append("| %s | %s | %s |" % (s, m.get("caught_by", m["property"]), m["needs"].replace("|", "/").strip()))
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"All \d+ are caught", "All %d are caught" % len(rows), t)
t = re.sub(r"(\| planted bug \| caught by \| needs \|\n\|-\|-\|-\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", t)
open(p, "w").write(t)
print(len(rows))
