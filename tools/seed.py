#!/usr/bin/env python3
"""Builds and verifies planted bugs.
seed.make(id, prop, edits, pkg, demo_go, needs, breaks): writes seeded/<id>, confirms
in a scratch copy that patch builds, stable tests pass, demo passes without and fails with it,
then runs the property's check against it in /repo (and undoes it)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Runs the demonstration as an overlay test of package %(pkg)s; cwd is the repository.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -r "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
cd "%(cd)s" && go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' %(flags)s ./%(rel)s
"""
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def make(id, prop, edits, pkg, demo, needs, breaks, flags="", check=True, mod=""):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    for path, old, new in edits:
        s = open(f"{r}/{path}").read(); assert s.count(old) == 1, (id, path, s.count(old), old)
        open(f"{r}/{path}", "w").write(s.replace(old, new))
    rc, out = sh("gofmt -l $(git diff --name-only)", r); assert not out.strip(), out
    patch = subprocess.check_output(["git", "diff"], cwd=r, text=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo_test.go.txt", "w").write(demo.lstrip())
    rel = pkg[len(mod):].lstrip("/") if mod else pkg
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=flags, cd=mod or ".", rel=rel)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # original lines?
    base = subprocess.check_output(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=r, text=True).split()[0]
    ok = True
    rc, out = sh("go build $(go list ./... | grep -v -e greeter/client -e wasmrs/testing) && cd types/uuid && go build ./...", r); 
    if rc: print(id, "BUILD FAILS", out[-800:]); ok = False
    rc, out = sh("go test $(go list ./... | grep -v greeter/client) 2>&1; cd types/uuid && go test ./...", r)
    if "FAIL" in out: print(id, "TESTS FAIL", out[-1500:]); ok = False
    rc, out = sh(d + "/demo.sh", r)
    if rc == 0: print(id, "DEMO PASSES WITH PATCH"); ok = False
    last = out
    sh("git checkout -q -- .", r)
    rc, out2 = sh(d + "/demo.sh", r)
    if rc != 0: print(id, "DEMO FAILS WITHOUT PATCH", out2[-1500:]); ok = False
    shutil.rmtree(w)
    print(id, prop, "valid" if ok else "INVALID", "| demo:", [l for l in last.splitlines() if "zz_demo" in l or "demo_test" in l or "panic" in l][:1])
    if check and ok: run(id, prop)
    return ok
def run(id, prop):
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"], text=True).strip()
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{V}/seeded/{id}/patch.diff"])
    try:
        rc, out = sh(f"python3 check.py {prop} quick", V, 1200)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    print("   ", "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, (v or out.splitlines()[-1:])[0])
    with open("/tmp/seed_results.txt", "a") as f: f.write(f"{id} {prop} {'caught' if rc==1 and v else 'missed'}\n")
if __name__ == "__main__":
    for i in sys.argv[1:]:
        run(i, json.load(open(f"{V}/seeded/{i}/meta.json"))["property"])
