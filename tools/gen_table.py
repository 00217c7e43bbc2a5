"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json (development only: no check reads seeded/)."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(glob.glob(f"{here}/seeded/*/")):
    by.setdefault(json.load(open(d + "meta.json"))["property"], []).append(os.path.basename(d[:-1]))
p = f"{here}/DESIGN.md"
s = open(p).read()
head = s[: s.index("## 6. ")]
head = re.sub(r"holds \d+ changes", f"holds {sum(map(len, by.values()))} changes", head)
rows = "".join(f"| {i} | {', '.join(by[i])} |\n" for i in sorted(by))
open(p, "w").write(f"{head}## 6. Which check catches which change\n\n| check | planted changes it catches |\n|---|---|\n{rows}")
