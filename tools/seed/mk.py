#!/usr/bin/env python3
"""mk.py [ID...]: (re)builds /verif/seeded/<id> from bugs.py and confirms each in a scratch copy of /repo.
Not used by any check."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "..", "seeded")
sys.path.insert(0, HERE)
from bugs import BUGS
W = "/tmp/seedw"
R = W + "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=R + "/target", RUSTFLAGS="-Awarnings")

DEMO_SH = """#!/bin/bash
# Exit 0 when the library behaves, nonzero when it does not. Run with cwd = the library's root.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$here/demo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sgmlish = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
nom = "7"
[workspace]
X
cd "$w" && CARGO_TARGET_DIR=$w/target RUSTFLAGS=-Awarnings CARGO_PROFILE_DEV_DEBUG=0 timeout 280 cargo run -q --offline
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def tests():
    r = sh("cargo test --workspace --no-fail-fast --offline 2>&1", cwd=R, env=ENV)
    ok = sum(int(x) for x in re.findall(r"test result: \w+\. (\d+) passed", r.stdout))
    bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    if "error: could not compile" in r.stdout or "error[" in r.stdout:
        return -1, [r.stdout[-3000:]]
    return ok, bad

def demo(d, timeout=280):
    e = dict(os.environ)
    e.pop("CARGO_TARGET_DIR", None)
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True, env=e)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def main():
    want = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("cp -a /repo %s" % R)
    sh("git checkout -q -- .", cwd=R)
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(SEEDED, b["id"], "patch.diff")):
            continue
        sh("git checkout -q -- .", cwd=R)
        d = W + "/" + b["id"]
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "../../harness/Cargo.lock"), d + "/demo.lock")
        s = open(d + "/demo.lock").read().replace('name = "harness"', 'name = "demo"')
        open(d + "/demo.lock", "w").write(s)
        rc, o = demo(d)
        if rc != 0:
            print(b["id"], "DEMO FAILS UNCHANGED", o); continue
        good = True
        for f, old, new in b["edits"]:
            p = R + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(b["id"], "EDIT MATCHES %d TIMES" % t.count(old), old); good = False; break
            open(p, "w").write(t.replace(old, new))
        if not good: continue
        ok, bad = tests()
        if ok != 104 or bad:
            print(b["id"], "TESTS", ok, "\n".join(bad)); continue
        rc, o = demo(d)
        if rc == 0:
            print(b["id"], "DEMO PASSES PATCHED", o); continue
        diff = sh("git diff", cwd=R).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        m = [l for l in o.splitlines() if l.strip()]
        print(b["id"], b["property"], "ok;", m[0][:100] if m else "rc %d" % rc)
        sys.stdout.flush()
    shutil.rmtree(W, ignore_errors=True)
main()
