#!/usr/bin/env python3
"""Confirms planted changes and writes them to seeded/<id>/.
usage: mkseed.py [id ...]     (definitions: tools/seeds.py)
Each change is applied in a scratch copy of /repo, must build, pass the tests, and its demo
must pass without and fail with the change."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
OUT = os.path.join(os.path.dirname(HERE), "seeded")
SCR = "/tmp/mkseed"

DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is not. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
weedle = { path = "$repo" }
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet
'''
PRE = """#![allow(unused)]
use weedle::*;
use weedle::argument::*; use weedle::attribute::*; use weedle::common::*; use weedle::dictionary::*;
use weedle::interface::*; use weedle::literal::*; use weedle::mixin::*; use weedle::namespace::*; use weedle::types::*;
fn ok<'a, T: Parse<'a>>(s: &'a str) -> (&'a str, T) { match T::parse(s) { Ok(x) => x, Err(_) => panic!("rejected: {:?}", s) } }
fn all<'a, T: Parse<'a>>(s: &'a str) -> T { let (r, t) = ok::<T>(s); assert_eq!(r, "", "not consumed: {:?}", s); t }
fn no<'a, T: Parse<'a>>(s: &'a str) { assert!(T::parse(s).is_err(), "accepted: {:?}", s); }
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def results(repo):
    o = "/tmp/mkseed-out.json"
    env = dict(os.environ)
    p = subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/mkseed.log 2>&1; python3 /opt/vp/results.py %s cargo:/tmp/mkseed.log" % o,
                       shell=True, cwd=repo, capture_output=True, text=True)
    return json.load(open(o))


def main():
    want = sys.argv[1:]
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", SCR])
    try:
        for s in seeds.SEEDS:
            if want and s["id"] not in want:
                continue
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=SCR)
            bad = None
            d = tempfile.mkdtemp()
            open(d + "/main.rs", "w").write(PRE + s["demo"])
            open(d + "/demo.sh", "w").write(DEMO)
            p0 = sh(["bash", d + "/demo.sh"], SCR)
            if p0.returncode != 0:
                print("==", s["id"], "demo fails on the unchanged tree\n", p0.stderr[-1500:])
                shutil.rmtree(d); continue
            for f, a, b in s["edits"]:
                t = open(SCR + "/" + f).read()
                if t.count(a) < 1:
                    bad = "no match in %s: %s" % (f, a); break
                open(SCR + "/" + f, "w").write(t.replace(a, b, 1))
            if not bad:
                p = sh(["cargo", "build", "--offline"], SCR)
                if p.returncode: bad = "build: " + p.stderr[-2500:]
            if not bad:
                r = results(SCR)
                base = json.load(open("/opt/vp/BASELINE.json"))
                names = base.get("tests") or base.get("passed") or base.get("stable") or base
                ps = set(r.get("passed", []))
                miss = [n for n in names if n not in ps]
                if miss: bad = "tests fail: %s" % miss[:5]
            if not bad:
                p1 = sh(["bash", d + "/demo.sh"], SCR)
                if p1.returncode == 0: bad = "demo passes with the change"
                elif "error[" in p1.stderr or "error: could not compile" in p1.stderr: bad = "demo build: " + p1.stderr[-1500:]
            if bad:
                print("==", s["id"], "REJECTED", bad)
            else:
                o = os.path.join(OUT, s["id"])
                os.makedirs(o, exist_ok=True)
                diff = sh(["git", "diff"], SCR).stdout
                open(o + "/patch.diff", "w").write(diff)
                shutil.copy(d + "/main.rs", o); shutil.copy(d + "/demo.sh", o)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
                print("==", s["id"], "ok:", [x for x in p1.stderr.splitlines() if x][1:3])
            shutil.rmtree(d)
    finally:
        shutil.rmtree(SCR, ignore_errors=True)
main()
