"""Fills DESIGN.md's table of planted bugs from seeded/*/meta.json and tools/seeded_results.txt (output of run_seeded.py)."""
import json, os

res = {}
for line in open("/verif/tools/seeded_results.txt"):
    w = line.split()
    if len(w) >= 3 and w[2] in ("caught", "MISSED"):
        res[w[0]] = w[2].lower()
rows = ["| bug | property | needs | own check |", "|---|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(i, "not run")))
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeded table"), s.index("<!-- end -->")
open(p, "w").write(s[:a] + "<!-- seeded table: tools/make_design.py -->\n" + "\n".join(rows) + "\n" + s[b:])
