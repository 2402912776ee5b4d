#!/usr/bin/env python3
"""seedtool.py confirm ID...   confirm a planted bug in a scratch copy (demo 0 -> patch, build, stable tests, demo non-zero)
seedtool.py catch ID...        apply it to /repo, run its property's quick check, undo"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.abspath(__file__)); S = "/tmp/seedwork/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def scratch():
    if not os.path.exists(S):
        os.makedirs("/tmp/seedwork", exist_ok=True); sh("cp -a /repo %s" % S, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", S)
    assert sh("git -C /repo rev-parse HEAD", "/").stdout == sh("git rev-parse HEAD", S).stdout
def tests():
    r = sh(". /opt/vp/env.sh; unset CARGO_TARGET_DIR; cp geom/test_output/delaunay_triangulation.jpg /tmp/seedwork/j 2>/dev/null; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip lin_alg::matrix_test::numerical_functionality_test:: 2>&1; cp /tmp/seedwork/j geom/test_output/delaunay_triangulation.jpg 2>/dev/null", S)
    if "could not compile" in r.stdout or "test result" not in r.stdout: return "does not build:\n" + r.stdout[-3000:]
    open("/tmp/seedwork/log", "w").write(r.stdout); sh("python3 /opt/vp/results.py /tmp/seedwork/out.json cargo:/tmp/seedwork/log", "/")
    m = STABLE - set(json.load(open("/tmp/seedwork/out.json"))["passed"])
    return "stable tests lost: %s" % sorted(m) if m else None
def demo(d):
    sh("rm -rf /tmp/seedwork/demo; cp -a %s /tmp/seedwork/demo; rm -f /tmp/seedwork/demo/patch.diff /tmp/seedwork/demo/meta.json" % d, "/")
    r = sh("timeout 300 bash /tmp/seedwork/demo/demo.sh", S); return r.returncode, (r.stdout + r.stderr)[-600:]
mode = sys.argv[1]; ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (V, i); prop = json.load(open(d + "/meta.json"))["property"]
    if mode == "confirm":
        scratch(); rc, o = demo(d)
        if rc != 0: print(i, "DEMO FAILS UNPATCHED", rc, o); continue
        a = sh("git apply %s/patch.diff" % d, S)
        if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
        t = tests()
        if t: print(i, t); continue
        rc, o = demo(d); print(i, "confirmed" if rc != 0 else "DEMO PASSES PATCHED", rc, o.strip().split("\n")[-3:])
        sh("git checkout -q -f .", S)
    else:
        assert sh("git status --porcelain", "/repo").stdout == "", "/repo not clean"
        a = sh("git apply %s/patch.diff" % d, "/repo")
        try:
            r = sh("VERIF_SEED=%s VERIF_TIER=quick ./check.sh %s quick" % (os.environ.get("VERIF_SEED", "1"), prop), V)
        finally: sh("git checkout -- .", "/repo")
        print(i, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d" % r.returncode), [l for l in r.stdout.split("\n") if "VIOLATION" in l][:1], r.stdout.strip().split("\n")[-2:] if r.returncode != 1 else "", r.stderr[-300:] if r.returncode == 2 else "", flush=True)
