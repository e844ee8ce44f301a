#!/usr/bin/env python3
"""check.py PROPERTY...: analyse /repo's current source for the properties and judge the result.

The analyser (sa/) runs as rustc wrapper inside `cargo check`, so it sees the program the build
sees (type-checked MIR).  It writes one JSON per property and crate; this script compares the
findings with known_findings.jsonl, writes evidence/<id>.json and prints the verdict.
Exit 0: held; 1: VIOLATION; 2: the analysis itself could not be done.
"""
import json, os, shutil, subprocess, sys, time, hashlib, tempfile, glob

V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.path.join(V, ".work")
EV = os.environ.get("SA_EVIDENCE", os.path.join(V, "evidence"))
BIN = os.path.join(WORK, "sa/release/ariadne-sa")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa: E402


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin", RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def sysroot(e):
    return subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()


def analyse(props, out, limit):
    e = env()
    if not os.path.exists(BIN) or not os.path.exists(os.path.join(WORK, "rt/libsa_rt.rmeta")):
        r = subprocess.run(["bash", os.path.join(V, "setup.sh")], env=e)
        if r.returncode:
            print("error: the analyser could not be built")
            return 2
    tgt = os.environ.get("SA_TGT", os.path.join(WORK, "tgt"))
    for d in ("debug/build/ariadne-dns", "debug/incremental"):
        shutil.rmtree(os.path.join(tgt, d), ignore_errors=True)
    for d in glob.glob(os.path.join(tgt, "debug/.fingerprint/ariadne*")):
        shutil.rmtree(d, ignore_errors=True)
    e.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", RUST_MIN_STACK="2000000000",
             LD_LIBRARY_PATH=sysroot(e) + "/lib", SA_RT=os.path.join(WORK, "rt/libsa_rt.rmeta"), RUSTC_WORKSPACE_WRAPPER=BIN,
             SA_PROP=",".join(props), SA_OUT=out, SA_TIER=TIER)
    kinds = ["--lib"]
    if any(PROPS[p].get("bins") for p in props):
        kinds.append("--bins")
    try:
        r = subprocess.run(["cargo", "check", "-q", "--offline", "--target-dir", tgt] + kinds, cwd=REPO, env=e, timeout=limit, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        print("error: the analysis did not finish in %d s" % limit)
        return 2
    if r.returncode:
        sys.stderr.write(r.stderr[-4000:])
        print("error: cargo check with the analyser failed (%d)" % r.returncode)
        return 2
    return 0


def known():
    k = []
    try:
        for l in open(os.path.join(V, "known_findings.jsonl")):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                k.append(json.loads(l))
    except FileNotFoundError:
        pass
    return k


def main():
    props = sys.argv[1:]
    if not props or any(p not in PROPS for p in props):
        print("usage: check.py PROPERTY...")
        return 2
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="sa-out-")
    try:
        rc = analyse(props, out, int(os.environ.get("SA_LIMIT", "840")))
        if rc:
            return rc
        worst = 0
        for p in props:
            worst = max(worst, judge(p, out, t0))
        return worst
    finally:
        shutil.rmtree(out, ignore_errors=True)


def judge(p, out, t0):
    m = PROPS[p]
    files = sorted(glob.glob(os.path.join(out, p + ".*.json")))
    if not files:
        print("error: no result for", p)
        return 2
    ds = [json.load(open(f)) for f in files]
    obl, fns, loops, roots, opaque, notes, errors, finds = {}, set(), set(), [], {}, set(), [], []
    for d in ds:
        for k, n, ok in d["obligations"]:
            a = obl.setdefault(k, [0, True])
            a[0] += n
            a[1] = a[1] and ok
        fns.update(d["functions"])
        loops.update(d["loops"])
        roots += d["roots"]
        notes.update(d["notes"])
        errors += d["errors"]
        for k, n in d["opaque"]:
            opaque[k] = opaque.get(k, 0) + n
        finds += d["findings"]
    floor = m.get("floor", {})
    if len(obl) < floor.get("obligations", 1):
        errors.append("only %d obligations found, at least %d expected" % (len(obl), floor.get("obligations", 1)))
    if len(fns) < floor.get("functions", 1):
        errors.append("only %d functions analysed, at least %d expected" % (len(fns), floor.get("functions", 1)))
    ks = [k for k in known() if k.get("property") == p]
    new, old = [], []
    for f in finds:
        key = {"func": f["func"], "kind": f["kind"], "detail": f["detail"]}
        (old if any(all(k.get(x) == key[x] for x in key) for k in ks) else new).append(f)
    for f in old:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (p, f["func"], f["detail"], f["line"]))
    rc = 0
    if new:
        rc = 1
        d = os.path.join(EV, "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, p + ".txt")
        with open(rp, "w") as w:
            for f in new:
                w.write("%s at %s\n  in %s\n  %s\n" % (f["kind"], f["line"], f["func"], f["detail"]))
                for t in f["trace"]:
                    w.write("    called from %s\n" % t)
                w.write("  facts: %s\n" % f["facts"])
        for f in new[:20]:
            print("%s: %s: %s [%s]" % (f["line"], f["kind"], f["detail"], f["func"]))
        print("VIOLATION property=%s replay=%s" % (p, os.path.relpath(rp, V)))
    elif errors:
        for x in errors:
            print("error:", x)
        rc = 2
    ev = {
        "property": p, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": m["level"],
        "coverage": {
            "obligations": len(obl), "discharged": sum(1 for v in obl.values() if v[1]),
            "evaluations": sum(v[0] for v in obl.values()),
            "checker_cmd": "bash run.sh " + p,
            "trusted_base": m["trusted"],
            "rule": m["rule"],
            "explanation": m["explanation"],
            "entry_points": sorted(set(roots)),
            "functions_analysed": sorted(fns), "loops": sorted(loops),
            "obligation_list": [[k, v[0], v[1]] for k, v in sorted(obl.items())],
            "samples": [k for k in sorted(obl)[:5]],
            "unmodelled_calls": opaque, "analysis_notes": sorted(notes), "errors": errors,
            "steps": sum(d["steps"] for d in ds),
        },
        "assumptions": m["assumes"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, p + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s holds: %d obligations on %d functions (%.1f s)" % (p, len(obl), len(fns), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
