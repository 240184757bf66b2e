#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds/<id>.py (edits, demo) against a scratch copy of the repository.

usage: mkseed.py COPY ID...      COPY is a scratch copy of /repo (a git work tree)

A definition sets: prop, needs, breaks, edits = [(file, old, new)], and one of
  rust = "fn main() {...}"  (a program against the library crates; PRELUDE is put in front), deps = extra dependencies
  cli  = "bash commands"    ($V is the tool, $W an empty scratch directory, the current one)
"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
copy, ids = sys.argv[1], sys.argv[2:]
PRELUDE = open(os.path.join(ROOT, "tools", "seeds", "prelude.rs")).read()
RUST = r'''#!/bin/bash
# Exits with 0 if the property holds for the case in main.rs. Works in a scratch directory of its own.
set -eu
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$W/src" "$W/tmp"
cp "$D/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
tools = { package = "volaris-tools", path = "$R/crates/volaris-tools" }
corecrypto = { package = "volaris-crypto", path = "$R/crates/volaris-crypto" }
@DEPS@
EOF
export TMPDIR=$W/tmp
cd "$W"
cargo build -q --offline --release --target-dir "$W/t"
timeout 200 "$W/t/release/demo"
'''
CLI = r'''#!/bin/bash
# Exits with 0 if the property holds for the case below. Works in a scratch directory of its own.
set -eu
R=$PWD
B=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf -- "$B"' EXIT
CARGO_TARGET_DIR=$B/t cargo build -q --offline --release -p volaris-cli
V=$B/t/release/volaris-cli
W=$B/w
mkdir -p "$W" "$B/tmp"
export TMPDIR=$B/tmp
unset VOLARIS_KEY
cd "$W"
bad() { echo "$1" >&2; exit 1; }
'''
for i in ids:
    ns = {}
    exec(open(os.path.join(ROOT, "tools", "seeds", i + ".py")).read(), ns)
    subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])
    for f, old, new in ns["edits"]:
        p = os.path.join(copy, "crates", f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "rust" in ns:
        open(os.path.join(d, "main.rs"), "w").write(PRELUDE + ns["rust"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(RUST.replace("@DEPS@", ns.get("deps", "").strip()))
    else:
        open(os.path.join(d, "demo.sh"), "w").write(CLI + ns["cli"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["prop"], "needs": " ".join(ns["needs"].split()), "what_it_breaks": " ".join(ns["breaks"].split())},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
    print("wrote", i)
