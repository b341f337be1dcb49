#!/usr/bin/env python3
"""Authoring helper: tools/mkseed.py SPEC.py
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo main.rs).
Works in the scratch copy /tmp/wt; keeps the seed only if it builds, passes the tests, and the demo separates."""
import os, sys, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.74.1", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PATH=$PATH:/root/.cargo/bin
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
D=$(mktemp -d /tmp/seed-demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
wolfram-parser = { path = "$R/crates/wolfram-parser" }
[profile.dev]
debug = 0
[workspace]
T
cd "$D"
cargo build -q --offline >"$D/log" 2>&1 || { cat "$D/log"; exit 3; }
timeout 60 ./target/debug/demo
'''


def run(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(specf):
    S = runpy.run_path(specf)
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    run(["git", "checkout", "-q", "--", "."])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if run(["git", "rev-parse", "HEAD"]).stdout.strip() != head:
        run(["git", "fetch", "-q", "/repo"])
        run(["git", "checkout", "-q", head])
    out = os.path.join(V, "seeded", S["ID"])
    tmp = out + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/main.rs", "w").write(S["MAIN"])
    open(tmp + "/demo.sh", "w").write(S.get("DEMO", DEMO))
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
    fail = None
    if "--nobase" not in sys.argv:
        r = run(["bash", tmp + "/demo.sh"])
        if r.returncode != 0:
            print(r.stdout[-2500:]); fail = "demo fails on the unchanged tree"
    if not fail:
        for f, old, new in S["EDITS"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                fail = "edit text occurs %d times in %s: %r" % (s.count(old), f, old[:80]); break
            open(p, "w").write(s.replace(old, new))
    if not fail:
        open(tmp + "/patch.diff", "w").write(run(["git", "diff"]).stdout)
        r = run(["cargo", "test", "-p", "wolfram-parser", "--no-fail-fast", "--offline", "--locked"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        failed = [l for l in r.stdout.splitlines() if l.endswith("FAILED") or l.startswith("error")]
        bl = json.dumps(base)
        failed = [l for l in failed if l.startswith("error[") or l.startswith("error:") and "test failed" not in l and "target" not in l or (l.startswith("test ") and l.split()[1] in bl)]
        if failed:
            print("\n".join(failed[:10])); print(r.stdout[-1500:] if any(l.startswith("error") for l in failed) else ""); fail = "tests fail"
    if not fail and any("codeparser-wll" in f for f, _, _ in S["EDITS"]):
        r = subprocess.run(["cargo", "check", "-p", "codeparser-wll", "--target-dir", WT + "/target/wll-check", "--offline", "--locked"], cwd=WT, env=dict(ENV, DOCS_RS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-2000:]); fail = "wll does not build"
    if not fail:
        r = run(["bash", tmp + "/demo.sh"])
        if r.returncode in (0, 3):
            fail = "demo does not fail with the patch (%d)" % r.returncode
            print(r.stdout[-800:])
        else:
            print("demo with patch:", r.stdout[-300:].strip().replace("\n", " | "))
    if fail:
        print("REJECTED", S["ID"], fail)
        shutil.rmtree(tmp)
        run(["git", "checkout", "-q", "--", "."])
        return 1
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    print("KEPT", S["ID"])
    e = dict(os.environ, VERIF_REPO=WT, VERIF_CACHE="/tmp/wt-cache", VERIF_EVIDENCE="/tmp/wt-evidence")
    which = sys.argv[2:] and [a for a in sys.argv[2:] if not a.startswith("-")] or [S["PROPERTY"]]
    for p in which:
        r = subprocess.run(["python3-vt", V + "/check.py", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check %s -> %d %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 else "*** MISSED"))
        print("\n".join(l[:300] for l in r.stdout.splitlines()[:4]))
    run(["git", "checkout", "-q", "--", "."])
    return 0


sys.exit(main(sys.argv[1]))
