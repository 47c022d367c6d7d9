#!/usr/bin/env python3
"""Try planted bugs (seeded/<id>) in scratch copies: demo passes on the
unchanged tree, patch builds, stable tests pass, demo fails, check catches it.
usage: plant.py ID... [--no-tests] [--no-check]; runs in a mount namespace of
its own where copies lie over /repo and /verif."""
import json, os, subprocess, sys
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = [a for a in sys.argv[1:] if a.startswith("--")]
if "--inner" not in flags:
    W = "/tmp/plant.%d" % os.getpid()
    os.makedirs(W)
    subprocess.check_call("cp -a /repo %s/repo && cp -a /verif %s/verif" % (W, W), shell=True)
    rc = subprocess.call(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 /verif/tools/plant.py --inner %s" % (W, W, " ".join(sys.argv[1:]))])
    subprocess.call(["rm", "-rf", W])
    sys.exit(rc)
def run(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return p.returncode, p.stdout
DM = "/tmp/plantdemo.%d" % os.getpid()
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = "/verif/seeded/" + i; meta = json.load(open(d + "/meta.json")); prop = meta["property"]; out = [i, prop]
    run("git -C /repo checkout -q -- .")
    rc, o = run("bash /opt/vp/build.sh")
    if rc: print(i, "base build failed", o[-500:]); continue
    run("mkdir -p %s && cp %s/* %s/ && rm -f %s/patch.diff %s/meta.json" % (DM, d, DM, DM, DM))
    rc0, o0 = run("bash %s/demo.sh" % DM, cwd="/repo", timeout=300)
    out.append("demo0=%d" % rc0)
    if rc0: out.append(o0[-800:])
    rc, o = run("git -C /repo apply %s/patch.diff" % d)
    if rc: print(*out, "PATCH DOES NOT APPLY", o); continue
    rc, o = run("bash /opt/vp/build.sh")
    if rc: print(*out, "BUILD FAILED", o[-1500:]); run("git -C /repo checkout -q -- ."); continue
    if "--no-tests" not in flags:
        run("bash /opt/vp/test.sh %s.json" % DM)
        miss = stable - set(json.load(open(DM + ".json"))["passed"])
        out.append("tests=%s" % ("ok" if not miss else "FAIL %d %s" % (len(miss), sorted(miss)[:3])))
    rc1, o1 = run("bash %s/demo.sh" % DM, cwd="/repo", timeout=300)
    out.append("demo1=%d" % rc1)
    if "--no-check" not in flags:
        rc, o = run("python3 /verif/check.py %s quick" % prop, cwd="/verif", env=env, timeout=1200)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s" % prop)]
        out.append("check rc=%d %s" % (rc, v[0][:100] if v else "MISSED " + o[-300:]))
    good = rc0 == 0 and rc1 != 0 and not any("FAIL" in x for x in out)
    print("GOOD" if good else "BAD ", *out, flush=True)
    run("git -C /repo checkout -q -- .")
    run("rm -rf " + DM)
