#!/usr/bin/env python3
"""Planted bugs: tools/seed.py pack DIR   (adds the kit and demo.sh to seeded/<id>; DIR holds patch.diff, meta.json, main.rs)
             tools/seed.py test ID... [--checks C01,C02]   (demo on the clean tree, then with the patch: build, tests, demo, check)"""
import json, os, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds a small program against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cp -r "$here/kit" "$here/main.rs" "$t/"
sed -i "s|@REPO@|$repo|g" "$t/kit/core/Cargo.toml" "$t/kit/demo/Cargo.toml"
mkdir -p "$t/kit/demo/src"; cp "$t/main.rs" "$t/kit/demo/src/main.rs"
cd "$t/kit/demo" && CARGO_TARGET_DIR=$t/target cargo build --offline -q >"$t/log" 2>&1 || { grep -E '^error' -A8 "$t/log" | head -40; exit 98; }
timeout 120 "$t/target/debug/demo"
'''
def pack(d):
    k = os.path.join(d, "kit")
    shutil.rmtree(k, ignore_errors=True)
    shutil.copytree(os.path.join(root, "shims"), os.path.join(k, "shims"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    os.makedirs(os.path.join(k, "core")); os.makedirs(os.path.join(k, "demo"))
    extra = open(os.path.join(d, "deps.toml")).read() if os.path.exists(os.path.join(d, "deps.toml")) else ""
    t = open(os.path.join(root, "w/core/Cargo.toml")).read().replace("/repo/", "@REPO@/").replace("../../shims", "../shims").replace("[workspace]", "")
    open(os.path.join(k, "core/Cargo.toml"), "w").write(t)
    open(os.path.join(k, "demo/Cargo.toml"), "w").write('''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ethereum-consensus = { path = "../core", features = ["spec-tests"] }
ssz_rs = { path = "../shims/ssz_rs" }
fr = { path = "../shims/fr" }
c-kzg = { path = "../shims/c-kzg" }
serde_json = "1"
serde = { version = "1", features = ["derive"] }
''' + extra + '''[profile.dev]
debug = false
incremental = false
[workspace]
''')
    shutil.copy(os.path.join(root, "w/core/Cargo.lock"), os.path.join(k, "core/Cargo.lock")) if False else None
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def test(ids, checks):
    import re
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    man = {c["property"]: c for c in json.load(open(os.path.join(root, "MANIFEST.json")))["checks"]}
    for i in ids:
        d = os.path.join(root, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        clean = sh(f"bash {d}/demo.sh", cwd="/repo")
        r = [f"demo clean {clean.returncode}"]
        if clean.returncode: r.append((clean.stdout + clean.stderr)[-600:])
        try:
            p = sh(f"git -C /repo apply {d}/patch.diff")
            if p.returncode: print(i, "PATCH", p.stderr); continue
            b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json", cwd="/repo")
            r.append("tests " + (b.stdout.strip().splitlines() or ["?"])[-1])
            x = sh(f"bash {d}/demo.sh", cwd="/repo")
            r.append(f"demo patched {x.returncode} ({(x.stdout+x.stderr).strip()[-150:]!r})")
            for c in (checks or [meta["property"]]):
                if c not in man: r.append(f"{c}: no check"); continue
                y = sh(man[c]["quick_cmd"], cwd=root, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in y.stdout.splitlines() if l.startswith("VIOLATION")]
                r.append(f"check {c} rc={y.returncode} violations={len(v)}")
                if y.returncode not in (0, 1): r.append(y.stdout[-300:])
        finally:
            sh("git -C /repo checkout -- .")
        print(i, "|", " | ".join(r), flush=True)
if sys.argv[1] == "pack":
    for d in sys.argv[2:]: pack(os.path.join(root, "seeded", d))
else:
    a = sys.argv[2:]; ch = None
    if "--checks" in a: k = a.index("--checks"); ch = a[k+1].split(","); a = a[:k]
    if a == ["all"]: a = sorted(os.listdir(os.path.join(root, "seeded")))
    test(a, ch)
