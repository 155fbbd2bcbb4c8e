#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: confirms planted bugs and files them under seeded/. Development tool, used by no check.
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo=Go test source)]."""
import json, os, subprocess, sys
REPO, ROOT = "/repo", "/verif"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="0", GOFLAGS="",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = """#!/bin/bash
# exit 0 when the property's demonstration passes on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=0
exec timeout 250 go test -count=1 -vet=off "$D/demo_test.go"
"""
HEAD = "package demo\n\nimport (\n%s)\n\n"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, env=ENV, text=True, errors="replace", capture_output=True, **kw)
def clean():
    assert sh("git -C /repo checkout -- .").returncode == 0
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    o = json.load(open("/tmp/plant_out.json"))
    want = set(b.get("stable") or b.get("passed") or b.get("tests") or [])
    got = set(o.get("passed") or o.get("pass") or [])
    return sorted(want - got)
def plant(bug):
    d = f"{ROOT}/seeded/{bug['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in bug["edits"]:
        p = f"{REPO}/{f}"
        s = open(p).read()
        n = bug.get("nth", {}).get(f)
        if n is None:
            assert s.count(old) == 1, f"{bug['id']}: {s.count(old)} matches in {f} of {old!r}"
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            assert len(parts) > n + 1
            s = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, "w").write(s)
    diff = sh("git -C /repo diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    if "demo" in bug:
        open(f"{d}/demo_test.go", "w").write(bug["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    res = []
    r = sh("gofmt -l core forms content resources types cmd *.go | xargs -r git diff --name-only --", cwd=REPO)
    if r.stdout.strip(): res.append("gofmt " + r.stdout.strip())
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: return "BUILD FAILS " + (r.stdout + r.stderr)[-800:]
    miss = stable()
    if miss: return f"TESTS FAIL {miss[:6]}"
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r.returncode == 0: return "DEMO DOES NOT FAIL"
    if "FAIL" not in r.stdout or "build failed" in r.stdout + r.stderr or "setup failed" in r.stdout: return "DEMO BROKEN " + (r.stdout + r.stderr)[-800:]
    sym = sh(f"/tmp/symx check -root {ROOT} -property {bug['property']}", cwd=ROOT)
    caught = sym.returncode == 1 and f"VIOLATION property={bug['property']}" in sym.stdout
    clean()
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r.returncode: return "DEMO FAILS ON CLEAN TREE " + (r.stdout + r.stderr)[-1500:]
    tail = [l for l in sym.stdout.splitlines() if "VIOLATION" in l][:1] or sym.stdout.splitlines()[-2:]
    return f"{'caught' if caught else 'MISSED'} rc={sym.returncode} {tail} {res}"
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
for bug in spec["BUGS"]:
    if only and bug["id"] not in only: continue
    try:
        print(bug["id"], plant(bug), flush=True)
    finally:
        clean()
