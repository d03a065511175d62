#!/usr/bin/env python3
"""Fills the two lists of DESIGN.md (defects, planted bugs) between their markers."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{ROOT}/DESIGN.md").read()
fixes = []
for l in open(f"{ROOT}/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if m: fixes.append(f"* {m[1]} `{m[2]}`: {m[3]}")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
def put(s, name, text):
    b, e = f"<!-- {name} -->", f"<!-- end {name} -->"
    if b in s:
        return s[:s.index(b)] + b + "\n" + text + "\n" + s[s.index(e):]
    return s.replace(f"@{name}@", b + "\n" + text + "\n" + e)
s = put(s, "FIXES", "\n".join(fixes))
s = put(s, "SEEDED", "\n".join(rows))
open(f"{ROOT}/DESIGN.md", "w").write(s)
