#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the markers) from properties.jsonl, notes.py and the harnesses."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
exec(open(here + "/notes.py").read())
H = {}
for f in sorted(glob.glob(here + "/harness/h*/*.go")):
    doc = []
    for l in open(f):
        if l.startswith("// "): doc.append(l[3:].strip()); continue
        m = re.match(r"func (P\d\d)_(\w+)\(\)", l)
        if m:
            d = " ".join(doc); i = d.find("Bounds:")
            H.setdefault(m[1], []).append((m[1] + "_" + m[2], os.path.relpath(f, here), d[i+7:].strip() if i >= 0 else "?"))
        doc = []
out = []
for l in open(here + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(NOTE[i] + f" Beyond tests: {WHY[i]}." + (f" Outside: {OUT[i]}." if i in OUT else "") + "\n")
    for n, f, b in sorted(H.get(i, [])): out.append(f"* `{n}` ({f}): {b}")
    out.append("")
s = open(here + "/DESIGN.md").read()
a, b = "<!-- generated by mkdesign.py -->\n", "<!-- end of generated part -->\n"
s = s[:s.index(a)+len(a)] + "\n".join(out) + s[s.index(b):]
open(here + "/DESIGN.md", "w").write(s)
