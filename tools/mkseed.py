#!/usr/bin/env python3
"""Development aid: turn a list of planted bugs into /verif/seeded/<id>/ after confirming each in a scratch copy.

usage: mkseed.py LIST.py [id]   LIST.py: S = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo="main.rs text" or demo_py="...")]"""
import json, os, re, runpy, shutil, subprocess, sys
V, W = "/verif", "/tmp/seedwork"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
set -e
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ellalgo-rs = { path = "$PWD" }
EOF
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo run -q --offline --manifest-path "$d/Cargo.toml"
'''
DEMOPY = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD/python_ai"
PY=/opt/vp/venv/bin/python
exec "$PY" "$here/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    S = runpy.run_path(sys.argv[1])["S"]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    ts = open("/opt/vp/test.sh").read().replace("/repo", W).replace("/opt/vp/env.sh", W + ".env")
    open(W + ".env", "w").write(open("/opt/vp/env.sh").read().replace("/repo", W))
    open(W + ".test.sh", "w").write(ts)
    for s in S:
        if pat and pat not in s["id"]:
            continue
        sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W))
        for e in s["edits"]:
            f, old, new, nth = tuple(e) + (0,) * (4 - len(e))
            p = os.path.join(W, f)
            t = open(p).read().split(old)
            if len(t) < nth + 2:
                print("NO MATCH", s["id"], f)
                break
            open(p, "w").write(old.join(t[:nth + 1]) + new + old.join(t[nth + 1:]))
        patch = sh("git -C %s diff" % W).stdout
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        rel = "demo_rel" in s
        if rel:
            s["demo"] = s["demo_rel"]
        if "demo" in s:
            open(d + "/main.rs", "w").write(s["demo"])
        else:
            open(d + "/demo.py", "w").write(s["demo_py"])
        open(d + "/demo.sh", "w").write((DEMO.replace("cargo run -q", "cargo run -q --release") if rel else DEMO) if "demo" in s else DEMOPY)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % d, cwd=W)
        good = sh("bash %s/demo.sh" % d, cwd="/repo")
        sh("rm -f /tmp/seed.json; bash %s.test.sh /tmp/seed.json" % W)
        try:
            r = json.load(open("/tmp/seed.json"))
            passed = set(r.get("passed", []))
            lost = sorted(stable - passed)
        except Exception as e:
            lost = ["no results %r" % e]
        ok = bad.returncode != 0 and good.returncode == 0 and not lost
        print("%s %s demo: patched=%d clean=%d lost=%d %s" % ("OK " if ok else "BAD", s["id"], bad.returncode, good.returncode, len(lost), lost[:4]), flush=True)
        if bad.returncode == 0 or good.returncode != 0:
            print(bad.stdout[-600:], "----", good.stdout[-1500:])
        elif ok:
            print("     ", bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else "")
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
    sh("git -C %s checkout -q -- ." % W)


main()
