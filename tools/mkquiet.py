#!/usr/bin/env python3
"""mkquiet.py NAME...: apply behaviour-preserving edits (tools/quiet/NAME.py) to a scratch copy and run the
checks listed there; every check has to stay quiet."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
def sh(c, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
for i in sys.argv[1:]:
    i, _, only = i.partition(":")
    spec = {}
    exec(open(os.path.join(V, "tools/quiet", i + ".py")).read(), spec)
    w = "/tmp/seedw/q-" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.run("git clone -q /repo %s" % w, shell=True, check=True)
    bad = False
    for f, old, new in spec["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "edit does not apply in", f, s.count(old), repr(old[:60])); bad = True; break
        open(p, "w").write(s.replace(old, new))
    if bad: continue
    env = {"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": "/tmp/seedw/tgt"}
    rc, o = sh("cargo build --workspace --offline && cargo test --workspace --offline -- --test-threads 8", w, env)
    if rc: print(i, "BUILD/TEST FAILS\n", o[-1500:]); continue
    for p in (only.split(",") if only else spec["props"]):
        t = time.time()
        rc, o = sh("bash run.sh " + p, V, {"SA_REPO": w, "SA_EVIDENCE": "/tmp/seedw/ev"})
        print(i, p, {0: "quiet", 1: "FALSE ALARM"}.get(rc, "ERROR"), "%.0fs" % (time.time() - t), "" if rc == 0 else o[-900:], flush=True)
    if not os.environ.get("KEEP"): shutil.rmtree(w, ignore_errors=True)
