#!/usr/bin/env python3
"""Planted changes: `add` writes /verif/seeded/<id>, `confirm` applies each to /repo in turn,
builds, runs the stable tests, its demonstration and the check of its property, and undoes it.

    python3 tools/seed.py confirm [ID..]      (no ID: all)
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = f"{ROOT}/seeded"
REPO = os.environ.get("SEED_REPO", "/repo")

RLIB = r'''#!/bin/bash
# Compiles demo.rs against the crate as build.sh built it, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
deps=$PWD/target/debug/deps
out=$(mktemp -d) || exit 2
export RUSTUP_TOOLCHAIN=1.82-x86_64-unknown-linux-gnu REPO=$PWD
lib() { ls -t "$deps"/lib"$1"-*.rlib "$deps"/lib"$1"-*.so 2>/dev/null; }
crates="@CRATES@"
build() { # $1: --extern arguments so far, the rest: crates still to choose a build of
    local ext=$1; shift
    if [ $# = 0 ]; then
        rustc --edition 2021 -Awarnings "$here/demo.rs" -o "$out/demo" -L dependency="$deps" $ext 2>"$out/err"
        return
    fi
    local c=$1 f; shift
    for f in $(lib $c); do build "$ext --extern $c=$f" "$@" && return 0; done
    return 1
}
build "--extern tailcall=$(lib tailcall | head -1)" $crates || { cat "$out/err"; exit 2; }
timeout 60 "$out/demo"
'''

KIT = r'''#!/bin/bash
# Builds the whole crate (with stand-ins for what is not to be had offline) and demo.rs, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
export RUSTUP_TOOLCHAIN=1.82-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$out/target"
REPO=$PWD WS="$out/ws" python3 "$here/mkws.py" || exit 2
(cd "$out/ws" && cargo build --offline -q -p demo 2>"$out/err") || { tail -30 "$out/err"; exit 2; }
timeout 60 "$out/target/debug/demo"
code=$?
find "$out" -delete
exit $code
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def add(id, prop, edits, demo, crates="", needs="", breaks="", kit=False):
    """edits: [(file below /repo, old, new)]"""
    d = f"{SEEDED}/{id}"
    os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout
    try:
        for f, old, new in edits:
            s = open(f"{REPO}/{f}").read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(f"{REPO}/{f}", "w").write(s.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(KIT if kit else RLIB.replace("@CRATES@", crates))
    os.chmod(f"{d}/demo.sh", 0o755)
    if kit:
        for x in ("mkws.py", "Cargo.lock", "stubs", "Cargo.toml"):
            src = f"{ROOT}/tools/demokit/{x}"
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, f"{d}/{x}", **({"dirs_exist_ok": True} if os.path.isdir(src) else {}))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(f"{d}/meta.json", "w"), indent=1)


def stable():
    out = tempfile.mktemp()
    sh("bash", "/opt/vp/test.sh", out)
    got = json.load(open(out))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return want - set(got["passed"])


def demo(id):
    return sh("bash", f"{SEEDED}/{id}/demo.sh", cwd="/repo")


def check(prop):
    return sh("python3", f"{ROOT}/harness/check.py", prop, env={**os.environ, "VERIF_TIER": "quick", "VERIF_SEED": "1"})


def confirm(ids, checks=True, tests=True):
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout
    res = {}
    r = sh("bash", "/opt/vp/build.sh")
    assert r.returncode == 0, r.stderr[-2000:]
    for id in ids:
        r = demo(id)
        res[id] = [] if r.returncode == 0 else [f"demo fails on the unchanged tree: {r.stdout[-1500:]}{r.stderr[-500:]}"]
    for id in ids:
        d = f"{SEEDED}/{id}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        a = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
        try:
            if a.returncode:
                res[id].append("does not apply: " + a.stderr)
                continue
            b = sh("bash", "/opt/vp/build.sh")
            if b.returncode:
                res[id].append("does not build: " + b.stderr[-1500:])
                continue
            if tests:
                bad = stable()
                if bad:
                    res[id].append(f"tests fail: {bad}")
            r = demo(id)
            if r.returncode == 0 or r.returncode == 2:
                res[id].append(f"demo: {r.returncode} {r.stdout[-1500:]}{r.stderr[-500:]}")
            if checks:
                c = check(prop)
                caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
                line = next((l for l in c.stdout.splitlines() if "VIOLATION" in l), "")
                if not caught:
                    res[id].append(f"NOT CAUGHT by {prop}: rc={c.returncode} {c.stdout[-800:]}{c.stderr[-800:]}")
                print(id, prop, "caught" if caught else "MISSED", line[:200], flush=True)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        print(id, "ok" if not res[id] else res[id], flush=True)
    sh("bash", "/opt/vp/build.sh")
    sh("bash", f"{ROOT}/harness/build.sh")
    return res


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    r = confirm(ids, checks="--no-checks" not in sys.argv)
    print("bad:", {k: 1 for k, v in r.items() if v})
