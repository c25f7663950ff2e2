#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (its last section's first table) from
seeded/*/meta.json; the last column is kept, and is the property for new ones."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = root + "/DESIGN.md"
s = open(p).read()
head = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = a
old = {}
while s.startswith("| ", b):
    e = s.index("\n", b) + 1
    c = s[b:e].strip().strip("|").split(" | ")
    old[c[0].strip()] = c[-1].strip()
    b = e
rows = ""
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows += f"| {i} | {m['property']} | {m['needs'].strip().replace('|', '/')} | {old.get(i, m['property'])} |\n"
open(p, "w").write(s[:a] + rows + s[b:])
