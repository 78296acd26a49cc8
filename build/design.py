#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, the defects (known-findings.txt) and the planted bugs (seeded)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/build/design_head.md").read()
fixed = [l[7:].strip() for l in open(V + "/known-findings.txt") if l.startswith("fixed:")]
found = [l.strip() for l in open(V + "/known-findings.txt") if l.startswith("finding:")]
out += f"The checks found these on the original tree; each is repaired in /repo by a `fix:` commit ({len(fixed)} entries). "
out += "Recorded but not repaired: " + (", ".join(found) if found else "none") + ".\n\n| property | commit | what failed |\n|---|---|---|\n"
for l in fixed:
    p, c, t = l.split(" ", 2)
    out += f"| {p.split('=')[1]} | {c} | {t.replace('|', '/')} |\n"
out += "\n## 7. Planted bugs\n\nEach was written from a property's text, passes the stable tests, and has a demonstration. `caught`: by the property's quick check (build/trybug.sh, vcheck).\n\n| id | what it breaks | needs | caught |\n|---|---|---|---|\n"
caught = set(open(V + "/build/caught.txt").read().split())
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out += f"| {i} | {d['what_it_breaks']} | {d['needs']} | {'yes' if i in caught else 'no'} |\n"
open(V + "/DESIGN.md", "w").write(out)
