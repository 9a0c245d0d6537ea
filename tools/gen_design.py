#!/usr/bin/env python3
"""DESIGN.md = DESIGN.in.md + table of the checks + table of the seeded changes"""
import os, json, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_table import ROWS
try:
    from catch_table import CATCH
except ImportError:
    CATCH = {}
t = "## Properties and how each is decided\n\n"
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(root + "/properties.jsonl")}
import re
def bounds_of(i):
    for d in ("mc", "mcx", "mc21"):
        f = root + f"/{d}/src/props/{i.lower()}.rs"
        if os.path.exists(f):
            src = open(f).read()
            m = re.search(r'Plan::new\(\s*"((?:[^"\\]|\\.|\\\n)*)"', src)
            b = re.sub(r"\\\n\s*", "", m.group(1))
            a = [re.sub(r"\\\n\s*", "", x) for x in re.findall(r'assume\(\s*"((?:[^"\\]|\\.|\\\n)*)"', src)]
            return b + ("." if not a else ". Assumed: " + "; ".join(a))
    return "see the check"
for i, (how, cost) in sorted(ROWS.items()):
    bounds = bounds_of(i)
    t += f"### {i} {titles[i]}\n\n* Decided by: {how}\n* Bounds: {bounds}\n* Cost: {cost}\n\n"
s = "## Planted bugs\n\nIn `seeded/`, each with a demonstration; generated by `tools/seeds.py`.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    s += f"| {i} | {m['property']} | {m['needs']} | {CATCH.get(i, '?')} |\n"
d = open(root + "/tools/DESIGN.in.md").read().replace("%TABLE%", t).replace("%SEEDED%", s)
open(root + "/DESIGN.md", "w").write(d)
