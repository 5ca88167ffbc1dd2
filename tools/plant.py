#!/usr/bin/env python3
"""plant.py ID PROPERTY SPEC.py : builds /verif/seeded/ID from SPEC.py, which defines
EDITS = [(file, old, new)], DEMO (rust source of main.rs), NEEDS, BREAKS, optional FLAGS
(rustc flags) or SERDE=True.  Confirms in a scratch copy that the change compiles, passes
the existing tests, and that the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ID, PROP, SPECF = sys.argv[1:4]
ns = {}
exec(open(SPECF).read(), ns)
S = "/tmp/plant"
shutil.rmtree(S, ignore_errors=True)
shutil.copytree("/repo", S, symlinks=True, ignore=shutil.ignore_patterns("target"))
for f, a, b in ns["EDITS"]:
    p = os.path.join(S, f)
    t = open(p).read()
    n = t.count(a)
    if n != 1:
        sys.exit("edit of %s matches %d times: %r" % (f, n, a))
    open(p, "w").write(t.replace(a, b))
patch = subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout
D = "/verif/seeded/" + ID
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(patch)
open(D + "/demo.rs", "w").write(ns["DEMO"])
flags = ns.get("FLAGS", "")
if ns.get("SERDE"):
    demo = '''#!/bin/bash
# exit 0 if the behaviour is right; run with cwd at the repository
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/lock.toml" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "harness"
version = "0.1.0"
edition = "2024"
[dependencies]
mdarray = { path = "$R", features = ["serde"] }
serde = "1"
serde_json = "1"
[workspace]
EOF
cd "$T" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$T/target" cargo run -q --offline
'''
    shutil.copy("/verif/harness/Cargo.lock", D + "/lock.toml")
else:
    demo = '''#!/bin/bash
# exit 0 if the behaviour is right; run with cwd at the repository
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2024 -Awarnings %s --crate-type rlib --crate-name mdarray src/lib.rs -o "$T/libmdarray.rlib" || exit 3
rustc --edition 2024 -Awarnings %s "$D/demo.rs" --extern mdarray="$T/libmdarray.rlib" -o "$T/demo" || exit 3
timeout 60 "$T/demo"
''' % (flags, flags)
open(D + "/demo.sh", "w").write(demo)
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(D + "/meta.json", "w"), indent=1)
env = dict(os.environ, CARGO_TARGET_DIR="/tmp/plant-target")
t = subprocess.run("cargo test --workspace --features serde --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=S, env=env, capture_output=True, text=True)
import re
passed = sum(int(x) for x in re.findall(r"(\d+) passed", t.stdout))
failed = sum(int(x) for x in re.findall(r"(\d+) failed", t.stdout))
a = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", D + "/demo.sh"], cwd=S, capture_output=True, text=True)
ok = t.returncode == 0 and a.returncode == 0 and b.returncode not in (0, 3)
print(ID, "OK" if ok else "REJECTED", "tests", t.returncode, passed, failed, "demo clean", a.returncode, "demo bug", b.returncode)
if not ok:
    print(t.stderr[-300:], t.stdout[-300:] if t.returncode else "", a.stderr[-300:], b.stderr[-300:])
shutil.rmtree(S, ignore_errors=True)
