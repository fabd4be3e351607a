#!/usr/bin/env python3
"""plant.py ID PROPERTY 'needs' 'what it breaks' MAIN.rs [--vis]: records the uncommitted change in the
scratch copy /tmp/wt as /verif/seeded/ID and confirms it: builds, passes the tests, and the demonstration
tells it from the unchanged tree. The scratch copy is restored afterwards."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ident, prop, needs, breaks, main = sys.argv[1:6]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def die(*a):
    print("NOT PLANTED", ident, *a)
    shutil.rmtree(os.path.join(V, "seeded", ident), ignore_errors=True)
    sys.exit(1)


patch = sh("git diff", cwd=WT).stdout
if not patch.strip():
    die("no change")
d = os.path.join(V, "seeded", ident)
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(patch)
src = open(main).read()
open(os.path.join(d, "main.rs"), "w").write(src)
if "bluejay_typegen" in src:
    shutil.copy(os.path.join(V, "tools/demo/demo_typegen.sh"), os.path.join(d, "demo.sh"))
else:
    shutil.copy(os.path.join(V, "tools/demo/demo.sh"), d)
    shutil.copy(os.path.join(V, "tools/demo/prelude.rs"), d)
if "mod vis" in src:
    shutil.copy(os.path.join(V, "tools/demo/vis.rs"), d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
try:
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", cwd=WT,
           env=dict(os.environ, INSTA_UPDATE="no", TRYBUILD="wip", NO_COLOR="1"))
    bad = re.findall(r"^test .*FAILED|^error.*|\.\.\. (?:mismatch|error)$", r.stdout, re.M)
    if r.returncode or bad:
        die("tests:", bad[:6], r.stdout[-600:] if not bad else "")
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if r.returncode == 0:
        die("the demonstration passes with the change")
    print("with:", r.stdout[-300:])
    sh("git stash", cwd=WT)
    r = sh("bash %s/demo.sh" % d, cwd=WT)
    if r.returncode:
        die("the demonstration fails without the change:", r.stdout[-900:])
    print("PLANTED", ident)
finally:
    sh("git checkout -- . ; git stash drop", cwd=WT)
