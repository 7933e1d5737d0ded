#!/usr/bin/env python3
"""Development tool: the table of planted bugs in DESIGN.md (between its two marks)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| `%s` | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
t = "| bug | caught by | what it needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, "w").write(s)
