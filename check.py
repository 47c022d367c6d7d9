#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: build from /repo's working tree, search, report."""
import concurrent.futures, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build, checks
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1")); c = checks.C[pid]; t0 = time.time()
    vs = c["variant"] if isinstance(c["variant"], (list, tuple)) else [(c["variant"], 1.0)]
    with concurrent.futures.ThreadPoolExecutor() as ex: drvs = list(ex.map(lambda v: build.build(v[0]), vs))
    drv = drvs[0]; tb = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); rp = os.path.join(HERE, "replays"); os.makedirs(rp, exist_ok=True)
    out = os.path.join(build.BUILD, "%s.%d.json" % (pid, os.getpid()))
    env = dict(os.environ); env.update(c.get("env", {}))
    # listed findings: re-run each demonstration against the real code
    known = 0
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            known += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)), flush=True)
            r = subprocess.run(([sys.executable, os.path.join(HERE, "mpidrive.py")] if vs[0][0] == "mpi" else []) + [drv, "--prop", pid, "--finding", m.group(2)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode != 10: print("note: finding %s no longer shows (%s)" % (m.group(2), r.stdout.decode(errors="replace").strip()[:200]))
    budget = float(os.environ.get("VERIF_BUDGET", c.get("budget_" + tier, 150 if tier == "quick" else 3000)))
    cases = int(os.environ.get("VERIF_CASES", c[tier]))
    o = None
    for (v, share), d in zip(vs, drvs):
        cmd = [d, "--prop", pid, "--seed", str(seed), "--cases", str(int(cases * share)), "--workers", str(c.get("workers", os.cpu_count() or 4)),
               "--budget", str(budget * share), "--tier", tier, "--replay-dir", rp, "--out", out]
        if v == "mpi": cmd = [sys.executable, os.path.join(HERE, "mpidrive.py")] + cmd
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 10) or not os.path.exists(out):
            print("error: the driver ended with status %d" % r.returncode); return 3
        q = json.load(open(out)); os.unlink(out)
        if len(vs) > 1: q["labels"] = dict(("%s:%s" % (v, k), n) for k, n in q["labels"].items())
        if o is None: o = q
        else:
            for k in ("evaluations", "skipped", "distinct_nontrivial", "unreproduced"): o[k] += q[k]
            o["labels"].update(q["labels"]); o["violations"] += q["violations"]; o["samples"] = o["samples"][:8] + q["samples"][:4]
        if o["violations"]: break
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
      coverage=dict(evaluations=o["evaluations"], distinct_nontrivial=o["distinct_nontrivial"], rule=c["rule"],
        samples=[s[:1200] for s in o["samples"][:12]], labels=o["labels"], skipped=o["skipped"], unreproduced_failures=o["unreproduced"],
        known_findings=known, cases_planned=cases, build_s=round(tb, 1)),
      assumptions=[c["note"]], wall_s=round(time.time() - t0, 2), violations=len(o["violations"]))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for v in o["violations"]:
        print("%s/%s: %s\n  case: %s" % (pid, v["sub"], v["message"][:1500], v["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if o["violations"]: return 1
    print("%s %s seed %d: %d cases (%d distinct non-trivial), no violation, %.1f s" % (pid, tier, seed, o["evaluations"], o["distinct_nontrivial"], time.time() - t0))
    return 0
if __name__ == "__main__": sys.exit(main())
