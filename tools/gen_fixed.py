#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix: commits of /repo. FIXED: commit subject prefix -> property"""
import subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from fixed_table import FIXED
log = subprocess.run(["git","-C",os.environ.get("REPO_DIR","/repo"),"log","--reverse","--format=%h %s","0247508.."],capture_output=True,text=True).stdout
lines=[]
for l in log.splitlines():
    h,s=l.split(" ",1)
    assert s.startswith("fix: "), s
    what=s[5:]
    p=[v for k,v in FIXED if what.startswith(k)]
    if not p: raise SystemExit("no property for: "+what)
    lines.append(f"fixed: property={p[0]} {h} {what}")
f=root+"/known_findings.txt"
keep=[l for l in open(f).read().splitlines() if not l.startswith("fixed:")]
open(f,"w").write("\n".join(keep+lines)+"\n")
