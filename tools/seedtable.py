#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seedlog.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = json.load(open(here + "/tools/seedlog.json"))
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/" + i + "/meta.json"))
    r = log.get(i, {})
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], r.get("seconds", "?"), "*" if r.get("missed_first") else ""))
rows.sort()
out = ["| | bug | what it breaks | needs | s |", "|-|-|-|-|-|"]
for p, i, b, n, s, star in rows:
    out.append("| %s | %s%s | %s | %s | %s |" % (p, i, star, b.replace("|", "/"), n.replace("|", "/"), s))
d = open(here + "/DESIGN.md").read()
d = re.sub(r"(<!-- table: tools/seedtable.py -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n" + "\n".join(out) + "\n\n" + m.group(2), d, flags=re.S)
open(here + "/DESIGN.md", "w").write(d)
