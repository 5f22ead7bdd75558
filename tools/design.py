#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tables of repaired defects and planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def read(name):
    p = os.path.join(V, "tools", name)
    return [l.rstrip("\n").split("\t") for l in open(p) if l.strip()] if os.path.exists(p) else []
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
out.append("\n### Repaired defects\n\n| property | commit | what failed | reverted, the check says |\n|--|--|--|--|\n")
un = dict((a, b) for a, b in read("unfix.tsv"))
for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed:"):
        _, p, c, w = l.split(" ", 3)
        out.append(f"| {p.split('=')[1]} | {c} | {w.strip()} | {un.get(w.strip(), '—')} |\n")
out.append("\n### Planted bugs (`seeded/`)\n\nCaught means: the property's quick check with seed 1 exits 1 with its VIOLATION line.\n\n"
           "| bug | property | needs | breaks | quick check |\n|--|--|--|--|--|\n")
c = dict((a, b) for a, b in read("catches.tsv"))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {c.get(d, 'not run')} |\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
