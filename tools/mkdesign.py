#!/usr/bin/env python3
"""Rewrite the generated sections of DESIGN.md (bounds from checks/specs.py, planted bugs from
seeded/*/meta.json, repairs from known_findings.txt)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
from specs import SPECS
T = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
c = lambda s: s.replace("|", "/").replace("\n", " ")
b = ["| id | property | deciding exploration | quick bound | thorough bound |", "|---|---|---|---|---|"]
for i in sorted(T):
    if i in SPECS:
        s = SPECS[i]
        b.append("| %s | %s | %s | %s | %s |" % (i, c(T[i]["title"]), c(s["technique"]), c(s["bounds"]["quick"]), c(s["bounds"]["thorough"])))
seeds = ["| planted bug | needs | effect | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = f.split("/")[-2]
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (n, c(m["needs"]), c(m["what_it_breaks"]), caught.get(n, m["property"])))
fix = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fix.append("* %s (`%s`) %s" % (m[1], m[2], m[3]))
d = open(V + "/DESIGN.md").read()
for name, txt in (("bounds", b), ("seeds", seeds), ("fixes", fix)):
    a, z = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = d.index(a) + len(a), d.index(z)
    d = d[:i] + "\n".join(txt) + "\n" + d[j:]
open(V + "/DESIGN.md", "w").write(d)
