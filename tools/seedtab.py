#!/usr/bin/env python3
"""Rewrites the rows of DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    cap = lambda s: s[:1].upper() + s[1:].rstrip(".")
    rows.append("| %s | %s | %s; needs %s |" % (d, m["property"], cap(m["what_it_breaks"]), m["needs"].rstrip(".")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
lines = s.split("\n")
ix = [i for i, l in enumerate(lines) if re.match(r"\| c\d\d-", l)]
lines[ix[0]:ix[-1] + 1] = rows
open(p, "w").write("\n".join(lines))
