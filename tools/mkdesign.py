#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {m['property']} | {d} | {m['needs']} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
head = "| property | bug | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
