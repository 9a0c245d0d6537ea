#!/usr/bin/env python3
"""Writes seeded/<id>/ from the definitions in seeds_def.py: seeds.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds_def import SEEDS
DEMO = '''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d)" || exit 2
trap 'cd /; rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%DEPS%
num-complex = "0.4"
[profile.dev]
debug = 0
[workspace]
EOT
%LOCK%cd "$dir" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
timeout -k 5 280 cargo %TC%run --offline -q
'''
DEPS = {
    "vector": 'basic_dsp_vector = { path = "$repo/vector" }',
    "matrix": 'basic_dsp_vector = { path = "$repo/vector" }\nbasic_dsp_matrix = { path = "$repo/matrix" }',
    "interop": 'basic_dsp_vector = { path = "$repo/vector" }\nbasic_dsp_interop = { path = "$repo/interop" }',
    "nostd": 'basic_dsp_vector = { path = "$repo/vector", default-features = false }\narrayvec = { version = "0.7", default-features = false }',
    "sse2": 'basic_dsp_vector = { path = "$repo/vector", default-features = false, features = ["std", "use_sse2"] }',
    "avx2": 'basic_dsp_vector = { path = "$repo/vector", default-features = false, features = ["std", "use_avx2"] }',
}
ids = sys.argv[1:]
work = tempfile.mkdtemp(dir="/tmp")
REPO = os.environ.get("REPO_DIR", "/repo")
BASE = "0247508"
subprocess.run(["git", "clone", "-q", REPO, work + "/r"], check=True)
for s in SEEDS:
    if ids and s["id"] not in ids:
        continue
    out = os.path.join(HERE, "..", "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    subprocess.run(["git", "-C", work + "/r", "checkout", "-q", "."], check=True)
    for (path, old, new, *n) in s["edits"]:
        p = work + "/r/" + path
        t = open(p).read()
        want = n[0] if n else 1
        if t.count(old) != want:
            sys.exit(f"{s['id']}: {path}: found {t.count(old)} times:\n{old}")
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", work + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    if d.startswith("diff") is False:
        sys.exit(s["id"] + ": empty")
    path, hit = None, 0
    for l in d.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
            base = subprocess.run(["git", "-C", work + "/r", "show", BASE + ":" + path], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:] in base:
                hit += 1
            else:
                print(f"{s['id']}: not an original line: {l}")
    if not hit:
        print(f"{s['id']}: no original line changed")
    open(out + "/patch.diff", "w").write(d)
    kind = s.get("crate", "vector")
    tc = "+nightly-2023-04-01-x86_64-unknown-linux-gnu " if kind in ("sse2", "avx2") else ""
    demo = DEMO.replace("%DEPS%", DEPS[kind]).replace("%TC%", tc).replace("%LOCK%", '[ -f "$repo/vector/Cargo.lock" ] && cp "$repo/vector/Cargo.lock" "$dir/Cargo.lock"\n' if tc else "")
    if kind == "avx2":
        demo = demo.replace("timeout -k", 'export RUSTFLAGS="-C target-feature=+sse2,+sse3,+avx,+avx2"\ntimeout -k')
    open(out + "/demo.sh", "w").write(demo)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/main.rs", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(work)
