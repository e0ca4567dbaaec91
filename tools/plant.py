#!/usr/bin/env python3
"""plant.py SPECFILE... : builds and validates planted bugs.

A spec file is Python that calls bug(id=, prop=, edits=[(file, old, new)...],
pkg=, demo= (Go test source with TestZZDemo, or None with script=), needs=,
breaks=). Each is applied to a scratch copy of /repo: it has to build, pass the
stable tests, and its demo has to fail with it and pass without it. If so it is
written to /verif/seeded/<id>. Then the check of its property is run on the copy."""
import json, os, shutil, subprocess, sys
SEED = os.environ.get("SEED", "/verif/seeded")
bugs = []
def bug(**k): bugs.append(k)
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
exec timeout 250 go test %s -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%s
'''
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)
for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
    exec(open(f).read())
only = [a for a in sys.argv[1:] if not a.endswith(".py") and not a.startswith("-")]
nocheck = "--nocheck" in sys.argv
baseline = json.load(open("/opt/vp/BASELINE.json"))
def stable_ok(tree):
    rc, out = sh("go test ./... 2>&1 -count=1 -json", tree, timeout=300)
    failed = [l for l in out.splitlines() if '"Action":"fail"' in l and '"Test"' in l]
    return rc == 0, failed[:3] or out[-500:]
for b in bugs:
    if only and b["id"] not in only: continue
    tree = "/tmp/plants/tree-" + b["id"]; d = SEED + "/" + b["id"]; tmp = "/tmp/plants/seed-" + b["id"]
    for x in (tree, tmp): shutil.rmtree(x, ignore_errors=True)
    sh("cp -a /repo %s" % tree, "/tmp")
    sh("git checkout -q -- . ; git clean -fdq", tree)
    os.makedirs(tmp)
    pkg = b.get("pkg", ".")
    if b.get("script"):
        open(tmp + "/demo.sh", "w").write(b["script"])
        for n, t in b.get("files", {}).items(): open(tmp + "/" + n, "w").write(t)
    else:
        open(tmp + "/demo.sh", "w").write(DEMO % (pkg, b.get("flags", ""), pkg))
        open(tmp + "/demo_test.go", "w").write(b["demo"])
    os.chmod(tmp + "/demo.sh", 0o755)
    rc, out = sh("bash %s/demo.sh" % tmp, tree, timeout=300)
    if rc != 0: print(b["id"], "DEMO FAILS UNCHANGED", out[-1500:]); continue
    ok = True
    for path, old, new in b["edits"]:
        p = tree + "/" + path; s = open(p).read()
        if s.count(old) != b.get("count", 1): print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    rc, out = sh("gofmt -l . ; go build ./... && go vet ./... ", tree)
    if rc != 0: print(b["id"], "BUILD", out[-800:]); continue
    if out.strip(): sh("gofmt -w $(git diff --name-only | grep go$)", tree)
    ok, why = stable_ok(tree)
    if not ok: print(b["id"], "TESTS FAIL", why); continue
    rc, out = sh("bash %s/demo.sh" % tmp, tree, timeout=300)
    if rc == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
    rc, diff = sh("git diff", tree)
    open(tmp + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    if nocheck: print(b["id"], "planted"); continue
    res = []
    for p in [b["prop"]] + b.get("also", []):
        rc, out = sh("./check.sh " + p, os.environ.get("VDIR", "/verif"), {"VERIF_REPO": tree, "VERIF_BUILD": "/tmp/plants/build", "VERIF_DIR": "/tmp/plants/v"})
        lines = [l for l in out.strip().splitlines() if l]
        why = next((l for l in lines if l.split(":")[0] in ("assert", "panic", "race", "deadlock", "leak")), lines[0] if lines else "")
        res.append("%s:%s" % (p, "CAUGHT " + why[:160] if rc == 1 else "MISSED rc=%d %s" % (rc, lines[-1][-200:])))
    print(b["id"], "; ".join(res), flush=True)
    for x in (tree, tmp): shutil.rmtree(x, ignore_errors=True)
