#!/usr/bin/env python3
"""Plants a bug: makes seeded/<id>/ from a spec, after confirming in a scratch copy of /repo
that the change compiles, passes the existing tests, and that its demonstration passes
without it and fails with it.

usage: plant.py SPECFILE [ID...]    SPECFILE is Python defining BUGS = [dict(...), ...] with keys
id, property, needs, breaks, edits=[(file, old, new)...], demo (Rust program; main returns normally
when the property holds), profile ("debug" or "release", default debug)
"""
import os, sys, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = r'''#!/bin/bash
# Run with the repository as the working directory: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
cryptography = { path = "$repo" }
hex = "0.4.3"
T
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline -q PROFILE 2> "$work/log" || { cat "$work/log" >&2; exit 3; }
timeout 200 "$work/target/DIR/demo"
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(b):
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        r = os.path.join(w, "repo")
        sh(["git", "clone", "-q", "/repo", r])
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit of {f} matches {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], cwd=r).stdout
        t = sh(". /opt/vp/env.sh; CARGO_TARGET_DIR=%s/t cargo test --workspace --offline --locked --no-fail-fast" % w, cwd=r)
        if t.returncode != 0:
            fails = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
            return b["id"], "tests or build fail: " + "; ".join(fails[:6])
        d = os.path.join(w, "demo")
        os.mkdir(d)
        rel = b.get("profile") == "release"
        if b.get("golden"):
            # the expected value is what the unchanged tree (which the checks pass) gives
            g = tempfile.mkdtemp(prefix="golden-", dir=w)
            open(g + "/demo.rs", "w").write(b["demo"].strip() + '\nfn main() { println!("GOLD{}", value()); }\n')
            open(g + "/demo.sh", "w").write(DEMO.replace("PROFILE", "").replace("DIR", "debug"))
            o = sh(["bash", g + "/demo.sh"], cwd="/repo")
            gold = [l[4:] for l in o.stdout.splitlines() if l.startswith("GOLD")]
            if len(gold) != 1:
                return b["id"], "no golden value: " + o.stdout[-1000:]
            b["demo"] = b["demo"].strip() + '\nfn main() { assert_eq!(value(), %s); }\n' % json.dumps(gold[0])
        open(d + "/demo.rs", "w").write(b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO.replace("PROFILE", "--release" if rel else "").replace("DIR", "release" if rel else "debug"))
        bad = sh(["bash", d + "/demo.sh"], cwd=r)
        good = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if good.returncode != 0:
            return b["id"], "demo fails on the unchanged tree: " + good.stdout[-1500:]
        if bad.returncode == 0 or bad.returncode == 3:
            return b["id"], f"demo rc {bad.returncode} with the change: " + bad.stdout[-1500:]
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return b["id"], "planted"
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    bugs = [b for b in g["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(one, bugs):
            print(i, m, flush=True)
