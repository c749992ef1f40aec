#!/usr/bin/env python3
"""Maintains /verif/seeded from tools/seeds.py and validates planted bugs.

seedtool.py gen [ids]     write seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json)
seedtool.py valid [ids]   apply, build, stable tests, demo on both trees
seedtool.py check [ids]   apply, run the property's quick check (and others named)
Works on a scratch worktree for `gen`, on /repo itself (restored) for the rest.
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.environ.get("SEED_V", "/verif"); R = os.environ.get("SEED_R", "/repo")
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero otherwise. cwd: the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
T=$(mktemp -d) || exit 98
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$HERE/demo.rs" "$T/src/main.rs" || exit 98
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rdf-types = { path = "$REPO", features = ["contextual", "serde"] }
contextual = "0.1"
serde = "1"
serde_json = "1"
langtag = "0.4"
iref = "3"
TOML
cd "$T" || exit 98
unset RUSTFLAGS
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2>err.log || { cat err.log; exit 97; }
timeout 60 ./target/debug/demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f"git -C {R} checkout -- .")
def gen(ids):
    for i in ids:
        s = SEEDS[i]; d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
        for f, old, new, *n in s["edits"]:
            p = f"{R}/{f}"; t = open(p).read()
            c = t.count(old); want = n[0] if n else 1
            if isinstance(want, int):
                assert c == want, (i, f, old, c)
                t = t.replace(old, new)
            else:                       # ("nth", k): only the k-th occurrence
                k = want[1]; parts = t.split(old); assert len(parts) > k + 1, (i, c)
                t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
            open(p, "w").write(t)
        diff = sh(f"git -C {R} diff").stdout; clean()
        assert diff, i
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("gen", i)
def demo(i): return sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R)
def tests():
    if R != "/repo":
        r = sh(". /opt/vp/env.sh; cargo test $ARGS --no-fail-fast", cwd=R)
        return None if r.returncode == 0 else "tests fail: " + r.stdout[-800:] + r.stderr[-300:]
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build failed: " + b.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed_o.json"))
    st = base["stable"]
    miss = set(st) - set(o["passed"])
    return f"{len(miss)} stable tests fail {sorted(miss)[:3]}" if miss or not st else None
def valid(ids):
    for i in ids:
        r0 = demo(i)
        a = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
        try:
            if a.returncode: print(i, "PATCH", a.stderr); continue
            t = tests(); r1 = demo(i)
        finally: clean()
        ok = r0.returncode == 0 and r1.returncode not in (0, 97, 98) and t is None
        print(i, "OK" if ok else "BAD", "unchanged:", r0.returncode, "patched:", r1.returncode, "tests:", t or "pass", flush=True)
        if not ok: print(r0.stdout[-1500:], r0.stderr[-500:], "---", r1.stdout[-1500:], r1.stderr[-500:])
def check(ids):
    res = {}
    for i in ids:
        a = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
        try:
            if a.returncode: print(i, "PATCH", a.stderr); continue
            out = []
            for p in [SEEDS[i]["property"]] + SEEDS[i].get("also", []):
                t = time.time()
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash {V}/run.sh {p} quick", cwd=V)
                hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
                out.append(f"{p}:{'CAUGHT' if hit else 'missed rc=%d' % r.returncode} {time.time()-t:.0f}s")
                if r.returncode not in (0, 1): print(r.stdout[-800:], r.stderr[-800:])
        finally: clean()
        print(i, *out, flush=True)
if __name__ == "__main__":
    ids = sys.argv[2:] or list(SEEDS)
    {"gen": gen, "valid": valid, "check": check}[sys.argv[1]](ids)
