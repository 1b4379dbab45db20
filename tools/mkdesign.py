#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for i in sorted(os.listdir(V + "/seeded")):
    t[json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]].append(i)
rows = "\n".join("| %s | %s |" % (p, ", ".join(t[p])) for p in sorted(t))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)",
           lambda m: m[1] + "| property | planted bugs, all caught by its check |\n|---|---|\n" + rows + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
