#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/caught.tsv."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir("seeded")):
    p = f"seeded/{d}/meta.json"
    if not os.path.isfile(p):
        continue
    m = json.load(open(p))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
t = "| change | caught by the check of | needs | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open("DESIGN.md").read()
s = re.sub(r"<!-- table -->\n.*?<!-- /table -->", lambda _: "<!-- table -->\n" + t + "<!-- /table -->", s, flags=re.S)
s = re.sub(r"All \d+ planted changes", f"All {len(rows)} planted changes", s)
open("DESIGN.md", "w").write(s)
print(len(rows), "rows")
