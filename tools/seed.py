#!/usr/bin/env python3
"""seed.py make SPEC.py | try ID... : builds planted bugs and confirms them in a scratch copy; 'try' runs the check against one.

A spec file is Python that calls bug(id, property, [(file, old, new)...], pkg, demo_source, needs, breaks)."""
import json, os, subprocess, sys, shutil, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")
BASE = ROOT + "/seeded/"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right; run in the repository's root
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
own=
for f in "$PWD"/%(pkg)s/*_test.go; do [ -e "$f" ] && own="$own,\\"$f\\":\\"\\""; done
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"$own}}" > "$t/o.json"
GOFLAGS= TMPDIR="$t" timeout 250 go test -count=1 -timeout 60s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
r=$?
rm -rf "$t"
exit $r
"""

def sh(cmd, cwd, t=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout + p.stderr

def bug(id, prop, edits, pkg, demo, needs, breaks):
    d = BASE + id
    tmp = tempfile.mkdtemp(prefix="seed")
    c = tmp + "/repo"
    try:
        shutil.copytree(REPO, c, symlinks=True)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo_test.go", "w").write(demo.lstrip())
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
        r, o = sh(d + "/demo.sh", c)
        if r != 0:
            print(id, "DEMO FAILS ON UNCHANGED TREE\n", o[-1500:]); return
        for f, a, b in edits:
            s = open(c + "/" + f).read()
            if s.count(a) != 1:
                print(id, f, "pattern occurs", s.count(a)); return
            open(c + "/" + f, "w").write(s.replace(a, b))
        r, o = sh("go build ./... && go vet ./%s 2>&1 | head -3; go test -count=1 ./..." % pkg, c)
        base = [l for l in o.splitlines() if l.startswith("FAIL") or l.startswith("---") or "panic" in l]
        ok = test_ok(c)
        if not ok:
            print(id, "TESTS FAIL", base[:5], o[-800:]); return
        r2, o2 = sh(d + "/demo.sh", c)
        if r2 == 0:
            print(id, "DEMO PASSES WITH THE PATCH"); return
        if "build failed" in o2:
            print(id, "DEMO DOES NOT BUILD", o2[-800:]); return
        _, diff = sh("git diff", c)
        open(d + "/patch.diff", "w").write(diff)
        print(id, "ok:", [l for l in o2.splitlines() if l.strip()][:4][-1][:150])
    finally:
        shutil.rmtree(tmp)

def test_ok(c):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    _, o = sh("go test -count=1 -json ./...", c)
    got = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            got.add(e["Package"] + "/" + e["Test"])
    return want <= got

def attempt(ids):
    for id in ids:
        d = BASE + id
        p = json.load(open(d + "/meta.json"))["property"]
        r, o = sh("git apply " + d + "/patch.diff", REPO)
        if r: print(id, "DOES NOT APPLY", o); continue
        try:
            r, o = sh("./check.sh " + p, ROOT, 1000)
        finally:
            sh("git checkout -- .", REPO)
        ls = [l for l in o.splitlines() if l.strip()]
        print(id, p, "exit", r, "| CAUGHT" if r == 1 and "VIOLATION property=" + p in o else "| MISSED", "|", " || ".join(l[:320] for l in ls[-2:]) + (" | NO-INPUT" if "no-failing" in o else ""), flush=True)

if sys.argv[1] == "make":
    exec(open(sys.argv[2]).read())
else:
    ids = sys.argv[2:] or sorted(os.listdir(BASE))
    attempt(ids)
