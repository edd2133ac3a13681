#!/usr/bin/env python3
"""seedtable.py: rewrite, in DESIGN.md, the table of planted bugs (from seeded/*/meta.json) and the table of sub-checks (from props/)."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(HERE, "tools/missed.json")))
rows = ["| planted bug | property whose quick check catches it | what it needs | missed first |", "|---|---|---|---|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], " ".join(m["needs"].split()).replace("|", "/"), MISSED.get(i, "")))

sys.path.insert(0, HERE)
from pbt import bootstrap, core

bootstrap.setup()
subs = ["| property | sub-check (quick / thorough cases) | rule of the generator and of non-triviality |", "|---|---|---|"]
for line in open(HERE + "/properties.jsonl"):
    P = core.load(json.loads(line)["id"])
    subs.append("| %s | %s | %s |" % (P.id, ", ".join("%s (%d / %d)" % (q.name, q.n["quick"], q.n["thorough"]) for q in P.subs), P.rule.replace("|", "/")))
p = HERE + "/DESIGN.md"
t = open(p).read()
for name, rr in (("seeds", rows), ("subs", subs)):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    t = t[: t.index(a) + len(a)] + "\n".join(rr) + "\n" + t[t.index(b):]
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
