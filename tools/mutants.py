#!/usr/bin/env python3
"""mutants.py LIST.py [ids...]: applies each change of the list to a scratch
copy of /repo; if it builds and passes the tests, runs the checks of its
properties there. A list calls m(id, "C01 C02", (file, old, new)...), and
q(...) for changes that keep the behaviour, on which the checks must be quiet."""
import os, re, shutil, subprocess, sys, time
VDIR = os.environ.get("VDIR", "/verif")
ms = []
def m(id, props, *edits): ms.append((id, props.split(), edits, 1))
def q(id, props, *edits): ms.append((id, props.split(), edits, 0))
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
W = os.environ.get("MUTDIR", "/tmp/mut")
for id, props, edits, want in ms:
    if only and id not in only: continue
    tree = W + "/tree"
    shutil.rmtree(tree, ignore_errors=True); os.makedirs(W, exist_ok=True)
    sh("git clone -q /repo " + tree, "/tmp")
    bad = ""
    for path, old, new in edits:
        p = tree + "/" + path
        if old is None: open(p, "w").write(new); continue
        s = open(p).read()
        if s.count(old) < 1: # up to comments and blank lines
            pat = r"(?:[ \t]*//[^\n]*)?\n(?:[ \t]*(?://[^\n]*)?\n)*".join(re.escape(l) for l in old.split("\n") if l.strip()) + ("\n" if old.endswith("\n") else "")
            s, n = re.subn(pat, lambda _: new, s)
            if n < 1: bad = "NO MATCH " + old[:70]; break
            open(p, "w").write(s); continue
        open(p, "w").write(s.replace(old, new))
    if bad: print(id, bad, flush=True); continue
    rc, out = sh("go build ./... && go vet ./... && go test ./... -count=1", tree, timeout=300)
    if rc != 0: print(id, "BUILD/TESTS", [l for l in out.splitlines() if "FAIL" in l or "go:" in l][:3], flush=True); continue
    for p in props:
        t = time.time()
        rc, out = sh("./check.sh " + p, VDIR, {"VERIF_REPO": tree, "VERIF_BUILD": W + "/build", "VERIF_DIR": W + "/v"})
        lines = [l for l in out.strip().splitlines() if l]
        why = next((l for l in lines if l.split(":")[0] in ("assert", "panic", "race", "deadlock", "leak")), lines[-1] if lines else "")
        ok = rc == want
        print("%-5s %s %s rc=%d %.0fs %s" % ("ok" if ok else "*****", id, p, rc, time.time() - t, why[:170]), flush=True)
