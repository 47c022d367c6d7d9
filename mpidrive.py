#!/usr/bin/env python3
"""mpidrive.py DRIVER OPTIONS: runs an MPI driver over batches of cases, shrinks failures (same options and output as src/runner.cpp)."""
import argparse, concurrent.futures, json, os, random, shutil, signal, struct, subprocess, sys, tempfile, threading, time
ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1",
  OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_pml="ob1",
  OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_btl_base_warn_component_unused="0", OMPI_MCA_orte_base_help_aggregate="0",
  OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PMIX_MCA_gds="hash")
MAXC = 60000; HEAD = 72; SH = HEAD + 12 + 6000 + 6000 + 2000 + 4 * MAXC
class Res: pass
def launch(drv, ranks, opts, timeout):
    """one mpirun; .ok, or the failing case and what is known of it"""
    d = tempfile.mkdtemp(prefix="bmlmpi.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None); r = Res(); r.lines = []; r.ok = False; r.case = None; r.out = ""; r.choices = []; r.msg = ""; r.desc = ""; r.infra = False
    try:
        env = dict(os.environ); env.update(ENV); env["TMPDIR"] = d
        p = subprocess.Popen(["mpirun", "-n", str(ranks), drv] + opts + ["--dir", d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try: out, _ = p.communicate(timeout=timeout); late = False
        except subprocess.TimeoutExpired:
            late = True; os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate()
            subprocess.run(["pkill", "-KILL", "-f", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r.out = out.decode(errors="replace"); r.code = p.returncode
        f = os.path.join(d, "out")
        if os.path.exists(f): r.lines = [l.split("\t") for l in open(f, errors="replace").read().split("\n") if l]
        r.ok = p.returncode == 0 and bool(r.lines) and r.lines[-1] == ["done"]
        if r.lines and r.lines[-1] == ["done"]: r.lines.pop()
        r.lines = [l for l in r.lines if len(l) == 7]
        if not r.ok:
            best = None
            for k in range(ranks):
                f = os.path.join(d, "r%d" % k)
                if not os.path.exists(f): continue
                b = open(f, "rb").read()
                if len(b) < SH: continue
                no, = struct.unpack_from("q", b, 0); st, nc, nt = struct.unpack_from("iIi", b, HEAD)
                if no < 0: continue
                txt = lambda o, n: b[o:o + n].split(b"\0")[0].decode(errors="replace")
                q = (st == 2, no, st != 1, nc); o = HEAD + 12
                if best is None or q > best[0]: best = (q, no, st, txt(o, 6000), txt(o + 6000, 6000), txt(8, 64), list(struct.unpack_from("%dI" % min(nc, MAXC), b, o + 14000)))
            if best is None or late or r.code == 97: r.infra = True
            else:
                _, r.case, st, r.msg, r.desc, r.sub, r.choices = best
                if st != 2: r.msg = "process ends inside a valid call"
                keep = [l for l in r.out.split("\n") if l.strip() and not l.startswith("MPI started in bml")]
                i = next((k for k, l in enumerate(keep) if "ERROR" in l or "runtime error" in l or "Assertion" in l), 0)
                r.msg += "; output: " + "\n".join(keep[i:i + 25])[:2200] if st != 2 or "ERROR: Addr" in r.out else ""
                if "signal 9" in r.out: r.infra = True
    finally: shutil.rmtree(d, ignore_errors=True)
    return r
def main():
    drv = sys.argv[1]; ap = argparse.ArgumentParser()
    for o in ("prop", "out", "replay", "only", "finding"): ap.add_argument("--" + o, default="")
    ap.add_argument("--replay-dir", default="."); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--cases", type=int, default=1000); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float, default=100); ap.add_argument("--tier", default="quick"); a = ap.parse_args(sys.argv[2:])
    if a.replay:
        h = open(a.replay).read().split("\n")[0].split()
        i = h.index("choices") if "choices" in h else len(h); kv = dict(zip(h[:i:2], h[1:i:2]))
        opts = ["--prop", kv["property"], "--ebn", kv["ebn"], "--tier", kv.get("tier", "quick")] + (["--ebs", kv["ebs"]] if kv["ebs"] != "-" else [])
        if "first" in kv: r = launch(drv, int(kv["ranks"]), opts + ["--seed", kv["seed"], "--first", kv["first"], "--cases", kv["cases"]], 400)
        else:
            with tempfile.NamedTemporaryFile("w", suffix=".list") as f:
                f.write(kv["sub"] + " " + " ".join(h[i + 1:]) + "\n"); f.flush(); r = launch(drv, int(kv["ranks"]), opts + ["--list", f.name], 400)
        if os.environ.get("DBG"): print(r.out)
        print("%s\ncase: %s\nmessage: %s" % ("PASS" if r.ok else "FAIL", r.desc or (r.lines[0][6] if r.lines else ""), r.msg if not r.infra else r.out)); return 0 if r.ok else 10
    if a.finding:     # exit 10: still present, 0: not reproduced
        r = launch(drv, 4, ["--prop", a.prop, "--ebn", "4", "--finding", a.finding], 400); print("absent" if r.ok else "present: " + r.msg); return 3 if r.infra else 0 if r.ok else 10
    t0 = time.time(); B = 120 if a.tier == "quick" else 300; nb = max(1, (a.cases + B - 1) // B); rng = random.Random(a.seed)
    batches = []
    for b in range(nb):
        ranks = [4, 9, 1, 4, 4, 9][b % 6]; n = rng.choice([1, 2, 3, 4, 5, 6, 7] if a.tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 11]); k = rng.randrange(3); bs = []
        if k:
            left = n; u = rng.randint(1, 4)
            while left: x = min(left, u if k == 1 else rng.randint(1, 4)); bs.append(x); left -= x
        batches.append((ranks, n, bs, b * B, min(B, a.cases - b * B)))
    def opts(bt): return ["--prop", a.prop, "--ebn", str(bt[1]), "--tier", a.tier] + (["--ebs", ",".join(map(str, bt[2]))] if bt[2] else []) + (["--only", a.only] if a.only else [])
    stop = threading.Event(); res = []; lock = threading.Lock(); broken = []
    def work(bt):
        if stop.is_set() or time.time() - t0 > a.budget: return
        for t in range(3):
            r = launch(drv, bt[0], opts(bt) + ["--seed", str(a.seed), "--first", str(bt[3]), "--cases", str(bt[4])], 600)
            if not r.infra: break
        with lock:
            if r.infra: broken.append(r); stop.set(); return
            res.append((bt, r))
            if not r.ok: stop.set()
    par = max(1, min(a.workers, os.cpu_count() or 4) // 3 + (1 if a.workers > 4 else 0))
    with concurrent.futures.ThreadPoolExecutor(par) as ex: list(ex.map(work, batches))
    if broken:
        sys.stderr.write("mpirun gave no answer:\n%s\n" % broken[0].out[-3000:]); return 3
    ev = sk = unre = 0; dist = set(); labels = {}; samples = []; viol = []; fails = []
    for bt, r in sorted(res, key=lambda x: x[0][3]):
        for no, st, nt, h, sub, lab, desc in r.lines:
            labels["sub:" + sub] = labels.get("sub:" + sub, 0) + 1
            for l in set(x for x in lab.split(";") if x): labels[l] = labels.get(l, 0) + 1
            if st == "3": sk += 1
            else:
                ev += 1
                if nt == "1": dist.add(h); (samples.append(sub + ": " + desc) if desc and len(samples) < 12 else None)
        if not r.ok: ev += 1; fails.append((bt, r))
    for bt, r in fails:
        if viol: break
        o = opts(bt); ranks = bt[0]
        def single(cands, names):
            """index of the first failing candidate, and its result"""
            with tempfile.NamedTemporaryFile("w", suffix=".list") as f:
                for s, c in zip(names, cands): f.write(s + " " + " ".join(map(str, c)) + "\n")
                f.flush(); q = launch(drv, ranks, [x for x in o] + ["--list", f.name], 300)
            return q
        sub = r.sub
        good = 0; last = r
        for t in range(3):
            q = single([r.choices], [sub])
            if not q.ok and not q.infra: good += 1; last = q
        if good == 3:
            cur = last.choices; msg = last.msg; desc = last.desc; ts = time.time(); execs = 0; lim = 0 if "does not finish" in msg else 60
            def attempt(cands):
                nonlocal cur, msg, desc, execs
                if not cands or time.time() - ts > lim: return -1
                q = single(cands, [sub] * len(cands)); execs += 1
                if q.ok or q.infra or q.case is None: return -1
                if len(q.choices) > len(cur) or (len(q.choices) == len(cur) and q.choices >= cur): return -1
                cur, msg, desc = q.choices, q.msg, q.desc; return q.case
            progress = True
            while progress and time.time() - ts < lim:
                progress = False; ln = max(1, len(cur) // 2)
                while ln >= 1:
                    at = 0
                    while at < len(cur) and time.time() - ts < lim:
                        cs = []; pos = []
                        for s in range(at, min(len(cur), at + 40 * ln), ln):
                            x = cur[:s] + cur[s + ln:]; cs.append(x); pos.append(s)
                            y = cur[:s] + [0] * min(ln, len(cur) - s) + cur[s + ln:]
                            if y != cur: cs.append(y); pos.append(s)
                        k = attempt(cs)
                        if k >= 0: progress = True; at = pos[k]
                        else: at += 40 * ln
                    ln //= 2
                at = 0
                while at < len(cur) and time.time() - ts < lim:
                    cs = []; pos = []
                    for s in range(at, min(len(cur), at + 20)):
                        for v in (cur[s] // 2, cur[s] - 1):
                            if 0 < v < cur[s]: cs.append(cur[:s] + [v] + cur[s + 1:]); pos.append(s)
                    k = attempt(cs)
                    if k >= 0: progress = True; at = pos[k]
                    else: at += 20
            again = sum(1 for _ in range(2) if not single([cur], [sub]).ok)
            if again < 2: cur, msg, desc = last.choices, last.msg, last.desc
            head = "property %s sub %s ranks %d ebn %d ebs %s tier %s choices %s" % (a.prop, sub, ranks, bt[1], ",".join(map(str, bt[2])) or "-", a.tier, " ".join(map(str, cur)))
        else:
            n = r.case - bt[3] + 1; q = launch(drv, ranks, o + ["--seed", str(a.seed), "--first", str(bt[3]), "--cases", str(n)], 600)
            if q.ok or q.infra: unre += 1; continue
            msg, desc, execs = q.msg + " (only after the cases before it)", q.desc, 0
            head = "property %s sub %s ranks %d ebn %d ebs %s tier %s seed %d first %d cases %d" % (a.prop, sub or "-", ranks, bt[1], ",".join(map(str, bt[2])) or "-", a.tier, a.seed, bt[3], n)
        path = os.path.join(a.replay_dir, "%s-%s-%d-%d.replay" % (a.prop, sub or "batch", a.seed, r.case))
        open(path, "w").write(head + "\n# case: %s\n# message: %s\n" % (desc.replace("\n", " "), msg.replace("\n", "\n# ")))
        viol.append(dict(replay=path, sub=sub, message=msg, case=desc, shrink_execs=execs))
    o = dict(evaluations=ev, skipped=sk, distinct_nontrivial=len(dist), unreproduced=unre, wall=time.time() - t0, violations=viol, samples=samples, labels=labels)
    (open(a.out, "w") if a.out else sys.stdout).write(json.dumps(o) + "\n")
    return 10 if viol else 0
sys.exit(main())
