#!/usr/bin/env python3
"""gen_seedtable.py: rewrites section 8 of DESIGN.md from seeded/*/meta.json
(every planted bug is caught by the quick check of its property unless meta.json
has "missed"). Development tool, no check uses it."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = s[:s.index("## 8.")] if "## 8." in s else s.rstrip() + "\n\n"
rows = {}
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    rows.setdefault(m["property"], []).append((i, m["needs"], m.get("missed")))
s += "## 8. Planted bugs and the checks that catch them\n\n"
s += "The quick check of the property catches every one of its planted bugs (confirmed with `tools/seedtest.py`), unless marked.\n\n"
s += "| check | planted bug | needs |\n|---|---|---|\n"
for c in sorted(rows):
    for i, n, miss in rows[c]:
        s += "| %s | %s | %s%s |\n" % (c, i, re.sub(r"[|\n]", " ", n), " **missed: %s**" % miss if miss else "")
open(p, "w").write(s)
print(sum(map(len, rows.values())), "bugs")
