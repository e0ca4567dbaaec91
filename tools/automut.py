#!/usr/bin/env python3
"""automut.py LIST.jsonl WORKER/OF [OP...]: runs first-order mutants (tools/automut)
that build and pass the tests against the checks concerned; prints survivors."""
import json, os, shutil, subprocess, sys, hashlib, time
VDIR = os.environ.get("VDIR", "/verif"); W = os.environ["MUTDIR"]
props = {
 "trace_core.go": "C01 C02 C03 C20 C07 C18 C13 C04", "trace_static.go": "C09 C13 C15 C10 C21", "collector.go": "C05 C09 C13 C19 C10 C06",
 "broker.go": "C13 C14", "decorators.go": "C19 C18 C20 C03 C07", "filter.go": "C08 C15 C16 C21", "helpers.go": "C18 C20",
 "search_stats.go": "C11 C12 C21", "search_types.go": "C09 C12 C15 C11 C21", "trace.go": "C08 C21 C18 C09 C20", "internal/trcringbuf/ringbuffer.go": "C05 C06 C07",
 "trcweb/middleware.go": "C17", "trcweb/render.go": "C21", "trcweb/trace_server.go": "C15 C16 C21 C14", "trcweb/util.go": "C15 C21 C16",
 "eztrc/easy.go": "C18 C20 C17", "cmd/trc/main.go": "C22", "cmd/trc/search.go": "C22", "cmd/trc/stream.go": "C22", "cmd/trc/trc.go": "C22", "cmd/trc/util.go": "C22",
 "internal/trcutil/humanize.go": "C21 C17", "internal/trcutil/errors.go": "C21 C15", "internal/trcutil/atomic.go": "C21"}
def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)
done = os.environ.get("DONE") and open(os.environ["DONE"]).read() or ""
k, n = map(int, sys.argv[2].split("/")); ops = sys.argv[3:]
ms = [json.loads(l) for l in open(sys.argv[1])]
ms = [m for m in ms if not ops or m["Op"] in ops]
ms.sort(key=lambda m: hashlib.md5(json.dumps(m, sort_keys=True).encode()).hexdigest())
tree = W + "/tree"; shutil.rmtree(tree, ignore_errors=True); os.makedirs(W, exist_ok=True); sh("git clone -q /repo " + tree, "/tmp")
for i, m in enumerate(ms):
    if i % n != k: continue
    p = tree + "/" + m["File"]; sh("git checkout -q .", tree)
    s = open(p, "rb").read(); open(p, "wb").write(s[:m["Off"]] + m["Repl"].encode() + s[m["End"]:])
    what = "%s:%d %s %s %r -> %r" % (m["File"], m["Line"], m["Func"], m["Op"], m["Old"][:70], m["Repl"][:40])
    if what in done: continue
    rc, out = sh("go build ./... && go test ./... -count=1", tree, timeout=120)
    if rc != 0: print("tests   ", what, flush=True); continue
    t = time.time(); res = "SURVIVED"
    for c in props.get(m["File"], "").split():
        rc, out = sh("./check.sh " + c, VDIR, {"VERIF_REPO": tree, "VERIF_BUILD": W + "/build", "VERIF_DIR": W + "/v"})
        if rc == 1: res = "caught " + c; break
        if rc != 0: res = "BROKEN rc=%d %s" % (rc, c); break
    print("%-9s %s %.0fs" % (res, what, time.time() - t), flush=True)
