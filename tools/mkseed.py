#!/usr/bin/env python3
"""Maintainer tool for planted bugs: mk(...) writes seeded/<id>; running it as
`mkseed.py test ID...` applies one to /repo, runs stable tests, demo and the
check, and takes it out again.  No check uses this file."""
import json, os, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")

DEMO = """#!/bin/bash
# Builds demo.rs against the crates in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2026-05-18 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/t"
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
cd "$tmp" && cargo build --offline -q 2>build.log || { cat build.log; exit 3; }
timeout 60 "$tmp/t/debug/demo"
"""
# for modules of the runtime: demo.rs includes them by path (@REPO@)
DEMO_RT = DEMO.replace('cp "$here/demo.rs" "$tmp/src/main.rs"', 'sed "s|@REPO@|$repo|g" "$here/demo.rs" > "$tmp/src/main.rs"').replace('"2021"', '"2024"')
DEPS = {"rtattr": 'monoruby-attr = { path = "$repo/monoruby_attr" }', "rt": "libc = \"0.2\"", "rtmap": 'rubymap = { path = "$repo/rubymap" }', "maps": 'rubymap = { path = "$repo/rubymap" }\nruby_traits = { path = "$repo/ruby_traits" }\nhashbrown = { path = "$repo/hashbrown" }'}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mk(id, prop, edits, needs, breaks, demo_rs=None, deps="maps", demo_sh=None, files=None):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or (DEMO_RT if deps.startswith("rt") else DEMO) % DEPS[deps])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if demo_rs:
        open(os.path.join(d, "demo.rs"), "w").write(textwrap.dedent(demo_rs))
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(textwrap.dedent(t))


def demo(id):
    return sh(["bash", os.path.join(S, id, "demo.sh")], cwd="/repo")


def test(id, checks=True, tests=True):
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    prop = json.load(open(os.path.join(S, id, "meta.json")))["property"]
    a = demo(id)
    out = [id, prop, "clean-demo=%d" % a.returncode]
    if a.returncode:
        print(a.stdout[-1500:])
    r = sh("git -C /repo apply %s" % os.path.join(S, id, "patch.diff"))
    try:
        if r.returncode:
            print(r.stdout)
            return
        if tests:
            t = sh("bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/o.json").stdout.strip().split("\n")[-1]
            out.append("tests: " + t)
        b = demo(id)
        out.append("bug-demo=%d" % b.returncode)
        if checks:
            for p in ([prop] if checks is True else checks):
                c = sh(["python3", os.path.join(V, "tools", "check.py"), p], cwd=V)
                v = "VIOLATION property=%s" % p in c.stdout
                out.append("%s=%d%s" % (p, c.returncode, "" if v else "(no violation line)"))
                if c.returncode == 2:
                    print(c.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(" ".join(out), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "test":
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            test(i)
    elif sys.argv[1] == "checks":  # without stable tests
        for i in (sys.argv[2:] or sorted(os.listdir(S))):
            test(i, tests=False)
