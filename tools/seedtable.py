"""replaces the table of planted changes in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for s in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, s)))
    rows.setdefault(m["property"], []).append("`%s` (%s)" % (s, m["what_it_breaks"]))
t = "| caught by | planted changes |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, "; ".join(r)) for p, r in sorted(rows.items()))
p = here + "/DESIGN.md"
d = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if a not in d:
    d = d.replace("@@SEEDS@@", a + b)
d = d[:d.index(a) + len(a)] + t + d[d.index(b):]
open(p, "w").write(d)
