#!/usr/bin/env python3
"""mkseed.py [-n] ID...: (re)make seeded/<ID> from tools/seeds/<ID>.py and confirm it in a scratch copy:
the patch applies, builds, passes the stable tests; the demo passes without and fails with it; and
say whether the check of its property catches it."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
L = os.path.join(V, "tools/seedlib")
def sh(c, cwd, env=None, t=600):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def one(i):
    spec = {}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), spec)
    w = "/tmp/seedw/" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run("git clone -q /repo %s" % w, shell=True, check=True)
    for f, old, new in spec["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "edit does not apply in", f, s.count(old), repr(old[:60])); return False
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.copy(os.path.join(L, "demo.sh"), d)
    pre = open(os.path.join(L, "prelude.rs")).read()
    open(os.path.join(d, "demo.rs"), "w").write(pre + "\n" + spec["demo"])
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    env = {"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": "/tmp/seedw/tgt"}
    rc, o = sh("cargo build --workspace --offline && cargo test --workspace --offline -- --test-threads 8", w, env)
    ok = rc == 0
    if not ok: print(i, "BUILD/TEST FAILS\n", o[-800:])
    r0, o0 = sh("bash %s/demo.sh" % d, "/repo", {"DEMO_TGT": "/tmp/seedw/dtgt0"})
    r1, o1 = sh("bash %s/demo.sh" % d, w, {"DEMO_TGT": "/tmp/seedw/dtgt1"})
    if r0 != 0 or r1 in (0, 99): print(i, "DEMO wrong: clean", r0, "patched", r1, "\n", o0[-500:], "\n---\n", o1[-500:]); ok = False
    props = json.load(open(os.path.join(V, "MANIFEST.json")))
    c = "-"
    if any(x["property"] == spec["property"] for x in props["checks"]):
        t = time.time()
        rc, o = sh("bash run.sh " + spec["property"], V, {"SA_REPO": w, "SA_EVIDENCE": "/tmp/seedw/ev"}, 900)
        c = {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc) + " %.0fs" % (time.time() - t)
        if rc == 1: c += " " + [x for x in o.splitlines() if not x.startswith("VIOLATION")][0][:200]
        elif rc != 0: c += o[-500:]
    print(i, spec["property"], "ok" if ok else "NOT OK", "| check:", c, flush=True)
    shutil.rmtree(w, ignore_errors=True)
    return ok
for i in sys.argv[1:]:
    one(i)
