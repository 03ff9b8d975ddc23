#!/usr/bin/env python3
"""Writes and checks planted bugs.

  plant.py make SPEC.py      make and confirm every plant of SPEC.py that is not in /verif/seeded yet
  plant.py run [ID...]       run each plant's check on the patched /repo and print what it said

SPEC.py defines plants: a list of dicts with id, property, needs, breaks, edits [(file, old, new[, count])]
and main (Rust source of the demonstration). Nothing here is read by a check.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

REPO, SEED = "/repo", "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
graphviz-rust = { path = "$repo" }
dot-structures = { path = "$repo/dot-structures" }
dot-generator = { path = "$repo/dot-generator" }
into-attr = { path = "$repo/into-attr" }
into-attr-derive = { path = "$repo/into-attr-derive" }
[patch.crates-io]
dot-structures = { path = "$repo/dot-structures" }
dot-generator = { path = "$repo/dot-generator" }
into-attr = { path = "$repo/into-attr" }
into-attr-derive = { path = "$repo/into-attr-derive" }
[workspace]
E
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" && mkdir tmp || exit 3
export CARGO_TARGET_DIR="$d/target" TMPDIR="$d/tmp" SCRATCH="$d/tmp"
cargo build -q --offline 2>"$d/err" || { cat "$d/err"; exit 2; }
timeout 100 "$d/target/debug/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def clean():
    sh(f"git -C {REPO} checkout -- .")
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo not clean"

def suite():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "does not build:\n" + (r.stdout + r.stderr)[-1500:]
    out = tempfile.mktemp()
    sh(f"bash /opt/vp/test.sh {out}")
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    o = json.load(open(out)); os.unlink(out)
    m = [x for x in base if x not in o['passed']]
    return f"tests fail: {m}" if m else None

def demo(i):
    r = sh(f"bash {SEED}/{i}/demo.sh", cwd=REPO, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def make(spec):
    env = {}
    exec(open(spec).read(), env)
    for p in env["plants"]:
        d = f"{SEED}/{p['id']}"
        if os.path.exists(d + "/meta.json") or os.path.exists(f"/verif/mutants/{p['id']}"): continue
        clean()
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        ok = True
        for e in p["edits"]:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
            t = open(f"{REPO}/{f}").read()
            if t.count(old) != n:
                print(p["id"], "EDIT", f, repr(old[:60]), t.count(old)); ok = False; break
            open(f"{REPO}/{f}", "w").write(t.replace(old, new))
        if not ok:
            clean(); shutil.rmtree(d); continue
        open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        open(d + "/main.rs", "w").write(p["main"])
        open(d + "/demo.sh", "w").write(DEMO)
        why = suite()
        rc1, o1 = (None, None) if why else demo(p["id"])
        clean()
        if not why:
            rc0, o0 = demo(p["id"])
            if rc0 != 0: why = f"demo on clean tree {rc0}: {o0}"
            elif rc1 in (0, 2, 3): why = f"demo on patched tree {rc1}: {o1}"
        if why:
            print(p["id"], "REJECTED", why); os.rename(d, f"/tmp/plants/rej-{p['id']}-{time.time():.0f}"); continue
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(p["id"], "kept, demo says:", o1.strip().splitlines()[-4:][:1], flush=True)
    sh("bash /opt/vp/build.sh")

def run(ids):
    for i in ids or sorted(os.listdir(SEED) + os.listdir("/verif/mutants")):
        d = f"{SEED}/{i}" if os.path.exists(f"{SEED}/{i}") else f"/verif/mutants/{i}"
        m = json.load(open(f"{d}/meta.json"))
        clean()
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        t = time.time()
        try:
            r = sh(f"cd /verif && ./run.sh {m['property']} quick", timeout=1000)
        finally:
            clean()
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{i:32} {m['property']} rc={r.returncode} {time.time()-t:5.1f}s {'CAUGHT' if r.returncode==1 and v else 'MISSED'} {v[:1]}", flush=True)
        if r.returncode not in (0, 1): print((r.stdout + r.stderr)[-1500:])

if __name__ == "__main__":
    if sys.argv[1] == "make": [make(s) for s in sys.argv[2:]]
    else: run(sys.argv[2:])
