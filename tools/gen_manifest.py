#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
from manifest_table import CLAIMED, NOT_CLAIMED
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s quick" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none (the scheduler is a drop-in crossbeam crate selected by [patch.crates-io] of the harness crates in /verif)",
              "enable": "cargo build in /verif/mc and /verif/mcx, which patch crossbeam with /verif/shim",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NOT_CLAIMED.get(p["id"], "the check is not built yet")}
                       for p in props if p["id"] not in CLAIMED],
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
