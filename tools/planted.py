#!/usr/bin/env python3
"""Writes the planted bugs under /verif/seeded from the edits below (against /repo HEAD)."""
import json, os, re, stat, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
V1, V2, BL = "poppy/src/bloom/v1.rs", "poppy/src/bloom/v2.rs", "poppy/src/bloom.rs"
HA, FNV, WY = "poppy/src/hash.rs", "poppy/src/hash/fnv.rs", "poppy/src/hash/wyhash.rs"
BA, BV, UT, BU = "poppy/src/bitset/array.rs", "poppy/src/bitset/vec.rs", "poppy/src/utils.rs", "poppy/src/bloom/utils.rs"
CLI, PY = "poppy/src/bin/poppy.rs", "python/src/lib.rs"

RUST_SH = """#!/bin/bash
# Compiles demo.rs against the library that was just built and runs it.
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2021 -A warnings "$here/demo.rs" --extern poppy_filters=target/debug/libpoppy_filters.rlib \\
    -L dependency=target/debug/deps -o "$tmp/demo" || exit 99
cd "$tmp" && ./demo
"""
CLI_SH = """#!/bin/bash
P=$(pwd)/target/debug/poppy
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
"""
PY_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
lib=$(ls target/debug/libpoppy*.so | head -1)
cp "$lib" "$tmp/poppy.so"
cd "$tmp" && PYTHONPATH="$tmp" PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 "$here/demo.py"
"""
PRE = """use poppy_filters::*;
fn v2(cap: u64, fpp: f64, opt: OptLevel) -> v2::BloomFilter {
    Params::new(cap as usize, fpp).opt(opt).try_into_v2().unwrap()
}
fn v1f(cap: u64, fpp: f64) -> v1::BloomFilter { v1::BloomFilter::with_capacity(cap, fpp).unwrap() }
fn img(b: &BloomFilter) -> Vec<u8> { let mut v = vec![]; b.write(&mut v).unwrap(); v }
fn img2(b: &v2::BloomFilter) -> Vec<u8> { let mut v = vec![]; b.write(&mut v).unwrap(); v }
fn img1(b: &v1::BloomFilter) -> Vec<u8> { let mut v = vec![]; b.write(&mut v).unwrap(); v }
fn rd(b: &[u8]) -> std::io::Cursor<Vec<u8>> { std::io::Cursor::new(b.to_vec()) }
"""
BUGS = []


def bug(id, prop, needs, breaks, edits, rust=None, sh=None, py=None):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, rust=rust, sh=sh, py=py))


exec(open(os.path.join(VERIF, "tools", "planted_list.py")).read())


def git(*a, **k):
    return subprocess.run(["git", "-C", REPO] + list(a), check=True, capture_output=True, text=True, **k).stdout


def main():
    assert git("status", "--porcelain") == "", "/repo is not clean"
    only = sys.argv[1:]
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                body, sep, tests = s.partition("#[cfg(test)]")
                assert body.count(old) == 1, (b["id"], f, body.count(old), old)
                open(p, "w").write(body.replace(old, new) + sep + tests)
            diff = git("diff")
        finally:
            git("checkout", "--", ".")
        d = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        if b["rust"]:
            open(d + "/demo.rs", "w").write(PRE + b["rust"])
            sh = RUST_SH
        elif b["py"]:
            open(d + "/demo.py", "w").write(b["py"])
            sh = PY_SH
        else:
            sh = CLI_SH + b["sh"]
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(len(BUGS))


main()
