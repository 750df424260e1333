"""writes DESIGN.md from design.md.in plus the tables that must not drift (fixes, seeded changes)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/dev/design.md.in").read()
f = json.load(open(V + "/known_findings.json"))["findings"]
s = s.replace("@FIXES@", "\n".join("| %s | %s | %s | %s |" % (e["commit"], e["property"], e["key"], e["what"]) for e in f if e["status"] == "fixed"))
caught = json.load(open(V + "/dev/caught.json"))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "not measured")))
s = s.replace("@SEEDED@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
