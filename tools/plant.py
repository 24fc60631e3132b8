#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/bugs.py and confirms each planted bug in a scratch copy of /repo:
it applies, builds, keeps the existing tests passing, and its demonstration tells the trees apart.
usage: plant.py [ID...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
SCRATCH = "/tmp/plant/repo"
SRC = "crates/mapping-algorithms/src/"
DEMO = r'''#!/bin/bash
# run with cwd /repo: exit 0 if the library behaves, nonzero if not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mapping-algorithms = { path = "$repo/crates/mapping-algorithms"@FEATURES@ }
nalgebra = { version = "0.33", default-features = false, features = ["std"] }
T
cd "$work" || exit 2
export CARGO_TARGET_DIR=$work/target
cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 60 ./target/debug/demo
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fresh():
    if not os.path.isdir(SCRATCH):
        os.makedirs(os.path.dirname(SCRATCH), exist_ok=True)
        sh(f"cp -a /repo {SCRATCH}", "/")
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SCRATCH)

def demo(d, repo):
    env = dict(os.environ, TMPDIR="/tmp/plant")
    # the demonstration takes the library below its working directory
    return sh(f"bash {d}/demo.sh", repo, env=env)

def main():
    want = sys.argv[1:]
    fresh()
    tests = "export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu; CARGO_TARGET_DIR=%s/target CARGO_NET_OFFLINE=true cargo test --workspace --all-features --offline 2>&1 | tail -40; exit ${PIPESTATUS[0]}" % SCRATCH
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .", SCRATCH)
        d = os.path.join(SEEDED, b["id"])
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, SRC + f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", SCRATCH).stdout
        r = sh("bash -c '%s'" % tests, SCRATCH)
        if r.returncode:
            print(b["id"], "TESTS FAIL\n", r.stdout[-1800:]); continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.sh", "w").write(DEMO.replace("@FEATURES@", b.get("features", "")))
        open(d + "/demo.rs", "w").write(b["demo"].lstrip())
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        bad = demo(d, SCRATCH)
        sh("git checkout -q -- .", SCRATCH)
        good = demo(d, SCRATCH)
        ok = good.returncode == 0 and bad.returncode not in (0, 2, 3)
        print(b["id"], b["property"], "ok" if ok else "DEMO WRONG", "good", good.returncode, "bad", bad.returncode, flush=True)
        if not ok:
            print(good.stdout[-1500:], bad.stdout[-1500:])
            shutil.rmtree(d)
main()
