#!/usr/bin/env python3
"""merge_evidence.py ID part...: combines evidence/ID-part.json into evidence/ID.json"""
import json, os, sys

pid, parts = sys.argv[1], sys.argv[2:]
docs = []
for p in parts:
    f = f"evidence/{pid}-{p}.json"
    docs.append(json.load(open(f)))
    os.remove(f)
out = docs[0]
cov = out["coverage"]
per = {}
for p, d in zip(parts, docs):
    per[p] = {k: d["coverage"][k] for k in ("states", "transitions", "units")}
for d in docs[1:]:
    c = d["coverage"]
    for k, v in c.items():
        if isinstance(v, bool):
            cov[k] = cov[k] and v
        elif isinstance(v, int):
            cov[k] = cov.get(k, 0) + v
    cov["samples"] = (cov["samples"] + c["samples"])[:12]
    out["wall_s"] += d["wall_s"]
    out["violations"] += d["violations"]
cov["builds"] = per
json.dump(out, open(f"evidence/{pid}.json", "w"))
