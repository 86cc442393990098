#!/usr/bin/env python3
"""Create and confirm planted bugs (development only; no check uses this).

plant.py make ID PROPERTY   reads stdin: python literal dict(edits=[(file, old, new)...], needs=, breaks=, demo=)
plant.py confirm ID [CHECK...]  applies it to /repo, builds, runs the stable tests, the demo and the checks, and undoes it
"""
import json, os, subprocess, sys, time
REPO, SEED = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# Compiles the program beside this script against the library just built and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:$PATH
deps=$PWD/target/debug/deps
rustc --edition 2018 -A warnings "$here/demo.rs" -o "$tmp/demo" -L dependency="$deps" \
  --extern quantmath="$deps/libquantmath.rlib" $(for c in serde serde_json erased_serde ndarray; do
  f=$(ls -t "$deps"/lib$c-*.rlib 2>/dev/null | head -1); [ -n "$f" ] && echo --extern $c="$f"; done) || exit 2
timeout 120 "$tmp/demo"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh("git", "-C", REPO, "checkout", "--", ".")
def make(i, prop):
    d = eval(sys.stdin.read())
    try:
        for f, old, new in d["edits"]:
            p = f"{REPO}/{f}"; t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
    finally:
        clean()
    os.makedirs(f"{SEED}/{i}", exist_ok=True)
    open(f"{SEED}/{i}/patch.diff", "w").write(diff)
    open(f"{SEED}/{i}/demo.sh", "w").write(DEMO); os.chmod(f"{SEED}/{i}/demo.sh", 0o755)
    open(f"{SEED}/{i}/demo.rs", "w").write(d["demo"])
    json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(f"{SEED}/{i}/meta.json", "w"), indent=1)
def stable():
    out = "/tmp/plant-tests.json"
    sh("bash", "/opt/vp/test.sh", out)
    got = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
    s = base["stable"]
    ok = set(got["passed"])
    return [t for t in s if t not in ok]
def confirm(i, checks):
    d = f"{SEED}/{i}"; meta = json.load(open(d + "/meta.json"))
    checks = checks or [meta["property"]]
    clean()
    try:
        b = sh("bash", "/opt/vp/build.sh")
        clean_rc = sh("bash", d + "/demo.sh", cwd=REPO)
        a = sh("git", "-C", REPO, "apply", d + "/patch.diff")
        if a.returncode: print(i, "APPLY", a.stderr); return
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode: print(i, "BUILD", b.stderr[-2000:]); return
        bad = stable()
        bug = sh("bash", d + "/demo.sh", cwd=REPO)
        res = {}
        for c in checks:
            t = time.time()
            r = sh("python3", "/verif/check.py", c, cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res[c] = (r.returncode, round(time.time() - t), [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1])
        good = clean_rc.returncode == 0 and bug.returncode not in (0, 2) and not bad
        print(i, "VALID" if good else "INVALID", "demo", clean_rc.returncode, bug.returncode, "tests", bad[:3], "CAUGHT" if any(v[0] == 1 for v in res.values()) else "MISSED", res, flush=True)
        if not good: print((clean_rc.stdout + clean_rc.stderr)[-1500:], "\n--\n", (bug.stdout + bug.stderr)[-600:])
    finally:
        clean()
if sys.argv[1] == "make": make(*sys.argv[2:4])
else: confirm(sys.argv[2], sys.argv[3:])
