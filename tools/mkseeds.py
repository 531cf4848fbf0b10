"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    p = open(os.path.dirname(f) + "/patch.diff").read()
    w = "m4" if re.search(r"^\+\+\+ b/m4/", p, re.M) else "C++"
    rows.append(f"| {i} | {m['property']} | {w} | {m['needs']} | {m['what_it_breaks']} |")
s = open(V + "/DESIGN.md").read()
h = "| id | caught by | in | needs | what it breaks |\n|---|---|---|---|---|\n"
a = s.index("| id | ", s.index("## 6 "))
b = s.index("\n\n", a)
open(V + "/DESIGN.md", "w").write(s[:a] + h + "\n".join(rows) + s[b:])
