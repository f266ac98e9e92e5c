"""Rewrites section 8 of DESIGN.md from seeded/*/meta.json and tools/bugs/results.json (run by hand)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/bugs/results.json"))
out = ["## 8. Which check catches which planted bug", "", "| bug | check | quick check | what is broken | needs |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], res.get(i, "?"), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read().split("## 8. ")[0]
open(V + "/DESIGN.md", "w").write(s + "\n".join(out) + "\n")
