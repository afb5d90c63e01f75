#!/usr/bin/env python3
"""mkseed.py SPEC.py : build and confirm planted bugs.

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust source)].
Each is confirmed in a scratch copy of /repo: the patch builds, the stable tests pass,
the demonstration exits 0 without it and non-zero with it."""
import json, os, shutil, subprocess, sys, tempfile, runpy

DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
coffer = { path = "$repo" }
wtf-8 = { path = "$repo/wtf8", features = ["std"] }
indexmap = "1.6.1"
[workspace]
EOF
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
rc=$?
exit $rc
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for sd in ns["SEEDS"]:
        if only and sd["id"] not in only:
            continue
        out = "/verif/seeded/" + sd["id"]
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            w = tmp + "/repo"
            sh("git clone -q /repo %s" % w, "/")
            if os.path.exists("/repo/Cargo.lock") and not os.path.exists(w + "/Cargo.lock"):
                shutil.copy("/repo/Cargo.lock", w)
            os.makedirs(tmp + "/demo")
            open(tmp + "/demo/demo.sh", "w").write(sd.get("demo", DEMO))
            if "main" in sd:
                open(tmp + "/demo/main.rs", "w").write(ns.get("PRELUDE", "") + sd["main"])
            r0 = sh("bash %s/demo/demo.sh" % tmp, w)
            if r0.returncode:
                print(sd["id"], "REJECTED: demo fails on the unchanged tree\n", r0.stdout[-1500:])
                continue
            for f, a, b in sd["edits"]:
                t = open(w + "/" + f).read()
                if t.count(a) != 1:
                    print(sd["id"], "REJECTED: %d matches in %s" % (t.count(a), f))
                    break
                open(w + "/" + f, "w").write(t.replace(a, b))
            else:
                diff = sh("git diff -- . ':!Cargo.lock'", w).stdout
                open(tmp + "/p.diff", "w").write(diff)
                if sh("git status --porcelain", "/repo").stdout.strip():
                    print("/repo is not clean"); return
                try:
                    ra = sh("git apply %s/p.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % (tmp, tmp), "/repo")
                finally:
                    sh("git checkout -- .", "/repo")
                if not os.path.exists(tmp + "/out.json"):
                    print(sd["id"], "REJECTED: build", ra.stdout[-1500:])
                    continue
                miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(tmp + "/out.json"))["passed"])
                if miss:
                    print(sd["id"], "REJECTED: tests", sorted(miss)[:5])
                    continue
                r1 = sh("bash %s/demo/demo.sh" % tmp, w)
                if r1.returncode == 0:
                    print(sd["id"], "REJECTED: demo passes with the patch")
                    continue
                if "error: could not compile" in r1.stdout or "error[E" in r1.stdout:
                    print(sd["id"], "REJECTED: does not compile", r1.stdout[-1500:])
                    continue
                os.makedirs(out, exist_ok=True)
                open(out + "/patch.diff", "w").write(diff)
                for f in os.listdir(tmp + "/demo"):
                    shutil.copy(tmp + "/demo/" + f, out)
                os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]},
                          open(out + "/meta.json", "w"), indent=1)
                print(sd["id"], "kept:", r1.stdout.strip().splitlines()[-1:] )
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
