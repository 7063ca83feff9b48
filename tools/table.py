#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(ROOT, "tools/caught.json")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
mark = "<!-- table -->\n"
s = s[:s.index(mark) + len(mark)]
def table(dirname):
    out = "\n| id | needs | breaks | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(os.path.join(ROOT, dirname))):
        m = json.load(open(os.path.join(ROOT, dirname, d, "meta.json")))
        r = res.get(d, {})
        cell = r.get("by", "not run") + (f" (first missed: {r['missed']})" if r.get("missed") else "")
        out += "| " + " | ".join(x.replace("|", "\\|").replace("\n", " ") for x in (d, m["needs"], m["what_it_breaks"], cell)) + " |\n"
    return out

s += "\n### In Go files (`seeded/`)\n" + table("seeded")
s += "\n### In templates (`planted_templates/`: vcheck does not count changes to template files)\n" + table("planted_templates")
open(p, "w").write(s)
