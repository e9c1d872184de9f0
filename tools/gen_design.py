"""DESIGN.md from tools/DESIGN.in.md, known_findings.json, seeded/*/meta.json and tools/catches.json"""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.in.md").read()
f = json.load(open(V + "/known_findings.json"))["findings"]
t = t.replace("@FINDINGS@", "\n".join("* %s: %s" % (d["id"], (d.get("what") or d.get("text") or "").replace("fixed: property=", ""))
                                       for d in f if d["status"] == "fixed"))
c = json.load(open(V + "/tools/catches.json"))
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(p))
    d = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("|", "/"), c["seeded"].get(n, d["property"])))
t = t.replace("@SEEDED@", "\n".join(rows))
t = t.replace("@MUT@", "\n".join("* " + x for x in c["mutants"]))
open(V + "/DESIGN.md", "w").write(t)
