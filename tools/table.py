"""Rewrites the table of planted bugs in DESIGN.md from tools/bugs/results.json (written by plant.py --checks)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(ROOT, "tools", "bugs", "results.json")))
rows = ["| change | needs | caught by |", "|---|---|---|"]
n = caught = 0
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    r = res.get(b, {})
    c = sorted(k for k, v in r.items() if v == "caught")
    n += 1
    caught += m["property"] in c
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), ", ".join(c) or ("missed by " + ", ".join(r) if r else "not run")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(n, "planted,", caught, "caught by the check of their property")
