#!/usr/bin/env python3
"""seed.py ID PROPERTY < spec.json : makes /verif/seeded/ID from {edits:[[file,old,new]], demo:"C++ program", needs, what, flags} and
confirms it in a scratch copy of /repo: builds, passes the stable tests, demo exits 0 without and non-zero with the change."""
import json, os, shutil, subprocess, sys, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(ID, prop, spec):
    d = "/verif/seeded/" + ID
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    r = w + "/repo"
    sh("cp -a /repo %s" % r)
    sh("git checkout -q -- .", cwd=r)
    for f, old, new in spec["edits"]:
        s = open(r + "/" + f).read()
        assert s.count(old) == 1, (ID, f, s.count(old), old)
        open(r + "/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
    open(d + "/demo.cpp", "w").write(spec["demo"])
    inc = " ".join('-I"$PWD/%s"' % i for i in spec.get("incl", ["src/core/include"]))
    if spec.get("stubs"): # stand-ins for third-party headers that are not installed here
        shutil.rmtree(d + "/stubs", ignore_errors=True)
        shutil.copytree("/verif/stubs", d + "/stubs")
        inc = '-I"$here/stubs" ' + inc
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++-14 -std=c++23 -O1 -w %s %s "$here/demo.cpp" -o "$t/demo" -pthread || exit 2
cd "$t" && timeout 120 ./demo
''' % (inc, spec.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=spec["needs"], what_it_breaks=spec["what"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    b = sh("bash %s/demo.sh" % d, cwd=r)
    ok = a.returncode == 0 and b.returncode != 0
    # build and tests with the change applied to /repo itself (build.sh works on /repo), undone straight afterwards
    assert not sh("git -C /repo status --porcelain").stdout
    x = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        bl = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh %s/t.json" % w)
        t = json.load(open(w + "/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
    finally:
        sh("git -C /repo checkout -- .")
    print(ID, "demo clean=%d patched=%d" % (a.returncode, b.returncode), "apply=%d build=%d" % (x.returncode, bl.returncode), "passed=%d failed=%s" % (len(t["passed"]), t["failed"]), "OK" if ok and not t["failed"] and bl.returncode == 0 else "BAD")
    if not ok: print(a.stdout[-1500:], b.stdout[-1500:])
    shutil.rmtree(w)
if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for ID, (prop, spec) in g["BUGS"].items():
        if len(sys.argv) < 3 or ID in sys.argv[2:]: make(ID, prop, spec)
