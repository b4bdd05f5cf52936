"""fills the table of planted bugs in DESIGN.md (between the two SEEDS markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (caught by its check) | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!--SEEDS-->.*<!--/SEEDS-->", lambda _: "<!--SEEDS-->\n" + "\n".join(rows) + "\n<!--/SEEDS-->", s, flags=re.S)
open(p, "w").write(s)
