#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  <<< old\n=====\nnew\n=====\nneeds\n=====\nbreaks\n=====\nrust main body"""
import sys, os, subprocess, json, tempfile
sid, prop, fn = sys.argv[1:4]
parts = sys.stdin.read().split("\n=====\n")
old, new, needs, breaks, body = parts[:5]
S = "/verif/seeded/" + sid
os.makedirs(S, exist_ok=True)
p = "/repo/" + fn
t = open(p).read()
assert t.count(old) == 1, ("matches", t.count(old))
tmp = tempfile.mkdtemp()
os.makedirs(os.path.join(tmp, "a", os.path.dirname(fn))); os.makedirs(os.path.join(tmp, "b", os.path.dirname(fn)))
open(os.path.join(tmp, "a", fn), "w").write(t)
open(os.path.join(tmp, "b", fn), "w").write(t.replace(old, new))
d = subprocess.run(["diff", "-u", "a/" + fn, "b/" + fn], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
mode = "a" if "--more" in sys.argv else "w"
open(S + "/patch.diff", mode).write(d)
if "--more" in sys.argv: sys.exit(0)
if body.startswith("#!/bin/bash"):
    open(S + "/demo.sh", "w").write(body)
else:
    open(S + "/main.rs", "w").write(body if "fn main" in body else PRE.replace("BODY", body) if False else body)
    open(S + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 if the library behaves, nonzero if not; cwd is the library's directory
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/data"
cp "$D/main.rs" "$W/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cbm = { path = "$R" }
[workspace]
EOF
cd "$W" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t" timeout 250 cargo run --offline -q -- "$W/data"
''')
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(S + "/meta.json", "w"), indent=1)
