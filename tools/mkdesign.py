#!/usr/bin/env python3
# Fills the generated table of DESIGN.md (planted bugs) from seeded/*/meta.json and tools/caught.txt.
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = {}
for l in open(os.path.join(V, "tools", "caught.txt")):
    if l.strip():
        i, c = l.split(None, 1)
        caught[i] = c.strip()
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), caught.get(d, "not run")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
