#!/usr/bin/env python3
"""tryseed.py [ids]: confirm each planted bug in a scratch copy (/tmp/sd): demo passes without it, fails with it, stable tests pass."""
import json, os, shutil, subprocess, sys
D = "/tmp/sd"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(D):
    sh("git clone -q /repo %s" % D)
sh("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (D, D))
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
base = json.load(open("/opt/vp/BASELINE.json"))
for i in ids:
    s = "/verif/seeded/" + i
    w = "/tmp/sd-demo"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(s, w)
    for r, _, fs in os.walk(w):
        for f in fs:
            if f.endswith(".toml") or f.endswith(".lock") or f.endswith(".sh"):
                p = os.path.join(r, f); t = open(p).read(); open(p, "w").write(t.replace("/repo", D))
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/sd-target")
    def demo():
        r = sh("bash -c '. /opt/vp/env.sh; cd %s/demo && cargo build --offline 2>&1 | tail -20 && timeout 120 $CARGO_TARGET_DIR/debug/demo'" % w, env=env)
        return r.returncode, r.stdout
    a = demo()
    ap = sh("git -C %s apply %s/patch.diff" % (D, s))
    b = demo()
    env2 = dict(os.environ, CARGO_TARGET_DIR="/tmp/sd-target2")
    t = sh(". /opt/vp/env.sh; (cd %s/dex && cargo test --no-fail-fast --offline -- --test-threads 8) ; (cd %s && CARGO_TARGET_DIR=/tmp/sd-target3 cargo test --workspace --no-fail-fast --offline -- --test-threads 8)" % (D, D), env=env2, executable="/bin/bash")
    sh("git -C %s checkout -- ." % D)
    fails = [l for l in t.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
    oks = [l for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("ok")]
    print(i, "apply", ap.returncode, "| clean", a[0], "| bug", b[0], "|", (b[1].strip().splitlines() or [""])[-2:][0][:140], "| tests ok", len(oks), "fail", fails, flush=True)
    if a[0] != 0: print(a[1][-1500:])
    if "error" in b[1] and "could not compile" in b[1]: print(b[1][-1500:])
