#!/usr/bin/env python3
"""plant.py verify ID...   : confirm planted bugs in a scratch copy (applies, builds, stable tests pass, demo passes without / fails with)
   plant.py check ID... [-- CHECK...] : apply each to /repo, run its property's check (or the named ones), undo
Nothing here is used by a check."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENV = "/opt/vp/env.sh"


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if False else None


def verify(ids):
    ok = True
    t = "/tmp/plant-scratch"
    if not os.path.exists(t):
        sh("cp -a /repo %s" % t)
    for i in ids:
        d = os.path.join(SEEDED, i)
        sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", t)
        demo = tempfile.mkdtemp(prefix="demo-")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), demo)
        rc0, o0 = sh("bash %s/demo.sh" % demo, t, timeout=300)
        rca, oa = sh("git apply %s/patch.diff" % d, t)
        rct, ot = sh(". %s; cargo test --workspace --all-targets --offline 2>&1 | tail -40; exit ${PIPESTATUS[0]}" % ENV, t)
        if rct == 0:
            rcd, od = sh(". %s; cargo test --workspace --doc --offline" % ENV, t)
            rct, ot = rcd, ot + od
        rc1, o1 = sh("bash %s/demo.sh" % demo, t, timeout=300)
        shutil.rmtree(demo)
        good = rc0 == 0 and rca == 0 and rct == 0 and rc1 != 0 and "could not compile" not in o1
        print(i, "OK" if good else "BAD", "apply=%d tests=%d demo_clean=%d demo_patched=%d" % (rca, rct, rc0, rc1), flush=True)
        if not good:
            ok = False
            print((o0[-1500:] if rc0 else "") + (oa if rca else "") + (ot[-2500:] if rct else "") + o1[-1500:])
    sh("git checkout -q -- .", t)
    return ok


def check(ids, checks):
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        rc, o = sh("git apply %s/patch.diff" % d, "/repo")
        if rc:
            print(i, "does not apply", o)
            continue
        try:
            for c in checks or [meta["property"]]:
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                rc, o = sh("time python3 tools/check.py %s" % c, VERIF, env)
                v = "VIOLATION property=%s" % c in o
                print(i, c, "CAUGHT" if rc == 1 and v else "missed rc=%d" % rc, flush=True)
                why = [x for x in o.splitlines() if x.startswith("rejected")]
                print("   ", (why[0][:300] if why else ("" if rc == 0 else o[-1500:])), flush=True)
        finally:
            sh("git checkout -q -- .", "/repo")


if __name__ == "__main__":
    a = sys.argv[2:]
    cs = a[a.index("--") + 1:] if "--" in a else []
    a = a[:a.index("--")] if "--" in a else a
    if a == ["all"]:
        a = sorted(os.listdir(SEEDED))
    if sys.argv[1] == "verify":
        sys.exit(0 if verify(a) else 1)
    check(a, cs)
