"""Development helper: makes /verif/seeded/<id> from a description file and confirms it.

usage: seed.py FILE.py    (the file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], MAIN)
       seed.py --confirm ID ...
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"

DEMO = '''#!/bin/bash
# run in /repo; builds a small program against it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "battery"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
zod = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["full"] }
futures = "0.3"
async-trait = "0.1"
axum = { version = "0.6", features = ["ws"] }

[profile.dev]
debug = false
X
cd "$d"
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q || exit %(buildrc)s
timeout 60 "$d/target/debug/battery" || exit 1
exit 0
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build fails: " + b.stdout[-800:]
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    a = json.load(open("/tmp/seed_o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    miss = set(base["stable"]) - set(a["passed"])
    return "tests fail: %s" % sorted(miss)[:5] if miss else None


def demo(i):
    p = sh("bash %s/%s/demo.sh" % (SEEDED, i), cwd=REPO)
    return p.returncode, p.stdout[-600:]


def original(d):
    """Whether the patch removes or changes a line which the original repository has."""
    root = sh("git -C %s rev-list --max-parents=0 HEAD" % REPO).stdout.split()[0][:7]
    f, ln = None, 0
    for x in open(os.path.join(d, "patch.diff")):
        if x.startswith("--- a/"):
            f = x[6:].strip()
            blame = sh("git -C %s blame -s %s" % (REPO, f)).stdout.splitlines()
        elif x.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", x).group(1))
        elif x.startswith("-"):
            if blame[ln - 1].startswith("^"):
                return True
            ln += 1
        elif x.startswith(" "):
            ln += 1
    return False


def confirm(i):
    d = os.path.join(SEEDED, i)
    rc, out = demo(i)
    if rc != 0:
        return "demo fails on the unchanged tree: " + out
    if not original(d):
        return "changes no line of the original repository"
    p = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if p.returncode:
        return "does not apply: " + p.stdout
    try:
        e = tests_ok()
        if e:
            return e
        rc, out = demo(i)
        if rc == 0:
            return "demo passes with the patch"
        print("   demo with patch:", out.strip()[-300:])
    finally:
        sh("git -C %s checkout -- ." % REPO)
    return None


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(SEEDED, ns["ID"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C %s status --porcelain -uno" % REPO).stdout.strip(), "/repo not clean"
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % REPO).stdout
    finally:
        sh("git -C %s checkout -- ." % REPO)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "DEMO" in ns:
        open(os.path.join(d, "demo.sh"), "w").write(ns["DEMO"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"buildrc": ns.get("BUILDRC", 1)})
        open(os.path.join(d, "main.rs"), "w").write(ns["MAIN"])
        shutil.copy(os.path.join(ROOT, "battery", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    for n, t in ns.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return ns["ID"]


def main():
    ids = sys.argv[2:] if sys.argv[1] == "--confirm" else [make(f) for f in sys.argv[1:]]
    for i in ids:
        e = confirm(i)
        print(i, "OK" if e is None else "BAD: " + e, flush=True)


main()
