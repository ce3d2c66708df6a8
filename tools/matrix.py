#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md.  tools/first_missed.txt: ID what was added."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
for l in open(V + "/tools/first_missed.txt"):
    if l.strip():
        a, b = l.strip().split(None, 1); missed[a] = b
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append((j["property"], i, j["what_it_breaks"], j["needs"], missed.get(i)))
rows.sort()
t = ["| property | change | breaks | needs | caught |", "|----|----|----|----|----|"]
for p, i, w, n, ms in rows:
    t.append("| %s | %s | %s | %s | %s |" % (p, i, w.replace("|", "/"), n.replace("|", "/"), "at first" if not ms else "after: " + ms))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- matrix -->.*?(?=\n## 7)", lambda m: "<!-- matrix -->\n\n%d changes, %d caught at first, %d after strengthening.\n\n" % (len(rows), sum(not r[4] for r in rows), sum(bool(r[4]) for r in rows)) + "\n".join(t) + "\n", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
