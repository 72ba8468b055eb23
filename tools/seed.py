#!/usr/bin/env python3
"""seed.py ID PROPERTY DEMO.rs|DEMO.sh NEEDS WHAT: keep the change in /tmp/scr as /verif/seeded/ID after confirming that it
builds, passes the existing tests, and that the demonstration tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/scr"
DEMO = '''#!/bin/bash
# cwd: the repository.  Builds a small program against it in a scratch directory and runs it.
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
prexel = { path = "$repo/prexel", features = [FEATURES] }
[workspace]
E
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet
'''


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e, timeout=t)


def main():
    sid, prop, demo, needs, what = sys.argv[1:6]
    feats = sys.argv[6] if len(sys.argv) > 6 else '"complex", "decimal", "binary"'
    diff = subprocess.run(["git", "diff"], cwd=SCR, capture_output=True, text=True).stdout
    assert diff.strip(), "no change in " + SCR
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E '^test result|FAILED|^error' | head -20", SCR,
           {"CARGO_TARGET_DIR": "/tmp/scrt"})
    bad = [l for l in r.stdout.split("\n") if l and not (l.startswith("test result: ok"))]
    if bad or "test result: ok" not in r.stdout:
        print("TESTS FAIL\n" + r.stdout)
        sys.exit(1)
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if demo.endswith(".rs"):
        shutil.copy(demo, os.path.join(d, "demo.rs"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FEATURES", feats))
    else:
        shutil.copy(demo, os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, "/repo")
    b = sh("bash %s/demo.sh" % d, SCR)
    print("demo on /repo: %d   with the change: %d" % (a.returncode, b.returncode))
    if a.returncode != 0 or b.returncode == 0:
        print(a.stdout[-1500:], a.stderr[-1500:], "----", b.stdout[-1500:], b.stderr[-1500:])
        shutil.rmtree(d)
        sys.exit(1)


main()
