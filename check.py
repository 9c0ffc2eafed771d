#!/usr/bin/env python3
"""check.py <ID>           run the check of one property (quick or thorough by
                         VERIF_TIER / --tier), write evidence/<ID>.json
check.py --replay <file>   rebuild and re-run the one case a replay file names

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not decide (build error, nothing observed)."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import build
from registry import CHECKS

VERIF = build.VERIF

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def known(pid):
    """keys of the findings recorded for this property"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res

def build_check(chk):
    name = chk["harness"]
    t = {"main": [os.path.join(VERIF, "h", name + ".cpp")] + [os.path.join(build.REPO, f) for f in chk.get("extra", [])],
         "repo": chk.get("repo", []), "flags": chk.get("flags", "").format(VERIF=VERIF, REPO=build.REPO), "libs": chk.get("libs", "")}
    cfg = chk.get("config", "san")
    lock = open(os.path.join(build.BUILD, ".lock") if os.path.isdir(build.BUILD) else os.devnull, "w")
    p = build.write_ninja(cfg, {name: t})
    rc, out = build.run_ninja(p, [name])
    if rc and "undefined reference" in out:
        log("link failed with the listed translation units; building all of /repo/src")
        t["repo"] = None
        p = build.write_ninja(cfg, {name: t})
        rc, out = build.run_ninja(p, [name])
    if rc:
        errs = [l for l in out.splitlines() if re.search(r"error|undefined|FAILED", l)]
        log("\n".join(errs[:40]))
        log("BUILD ERROR: cannot decide")
        sys.exit(2)
    return build.exe(cfg, name)

def crash_key(err, rc, progress):
    group = progress.split()[0] if progress.strip() else "start"
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(1)).strip().replace(" ", "-")[:80]
    if kind is None:
        m = re.search(r"overlay: [^\n]*|MFEM abort: [^\n]*|Verification failed: [^\n]*|terminate called[^\n]*|Assertion[^\n]*failed", err)
        if m:
            kind = "abort:" + m.group(0).replace(" ", "-")[:80]
    if kind is None:
        kind = f"exit:{rc}"
    return f"{group}/{kind}"

def mpirun(n, e):
    """prefix that runs a harness on n ranks of this machine, over the loopback"""
    e.pop("OMPI_MCA_ess_singleton_isolated", None)
    e.pop("OMPI_MCA_btl", None)
    return ["mpirun", "--oversubscribe", "-n", str(n), "--bind-to", "none",
            "--mca", "btl", "self,tcp", "--mca", "btl_tcp_if_include", "lo", "--mca", "plm", "isolated",
            "--mca", "oob_tcp_if_include", "lo", "--mca", "mpi_yield_when_idle", "1"]

def run_shards(exe, pid, seed, tier, nshards, timeout, wd, extra=(), scale=100, mpi=None):
    procs = []
    e = build.env()
    e["VERIF_SEED"], e["VERIF_TIER"] = str(seed), tier
    def start(i):
        d = os.path.join(wd, f"s{i}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = [exe, "--prop", pid, "--out", os.path.join(d, "out.json"),
               "--shard", f"{i}/{nshards}", "--scale", str(scale)] + list(extra)
        if mpi:
            cmd = mpirun(mpi[i % len(mpi)], e) + cmd
            e["TMPDIR"] = d
        so, se = open(os.path.join(d, "stdout"), "w"), open(os.path.join(d, "stderr"), "w")
        return i, d, subprocess.Popen(cmd, cwd=d, stdout=so, stderr=se, env=e, stdin=subprocess.DEVNULL,
                                      start_new_session=True)
    def wait(p, limit):
        try:
            return p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            if mpi:             # it ends its ranks
                p.send_signal(signal.SIGTERM)
                try:
                    p.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return None
    for i in range(nshards):
        procs.append(start(i))
    t0 = time.time()
    results, vios, inconclusive = [], [], []
    for i, d, p in procs:
        rc = wait(p, max(1, timeout - (time.time() - t0)))
        hung = False
        if rc is None:      # inconclusive: once more, alone
            log(f"shard {i} timed out; running it once more alone")
            i, d, p = start(i)
            rc = wait(p, timeout * 0.6)
            hung = rc is None
        out = os.path.join(d, "out.json")
        def rd(n):
            try:
                return open(os.path.join(d, n), errors="replace").read()
            except OSError:
                return ""
        prog = rd("out.json.progress").strip()
        if os.path.exists(out):
            results.append(json.load(open(out)))
        told = False
        for f in glob.glob(out + ".r*[0-9]"):       # what the other ranks found
            for v in json.load(open(f))["violations"]:
                vios.append(dict(v, ranks=mpi[i % len(mpi)]))
                told = True
        if mpi and os.path.exists(out):
            for v in results[-1]["violations"]:
                v["ranks"] = mpi[i % len(mpi)]
                told = True
        if told:
            continue
        at = {"ranks": mpi[i % len(mpi)]} if mpi else {}
        if hung:
            vios.append({"key": prog.split()[0] + "/hang" if prog else "start/hang",
                         "msg": "did not finish, twice", "input": prog,
                         "group": prog.split()[0] if prog else "", "idx": (prog.split() + ["", "-1"])[1], **at})
        elif rc != 0 or not os.path.exists(out):
            err = rd("stderr")
            if rc == 77 or prog.startswith("start") or not prog:
                for again in range(3):      # nothing was run yet (MPI would not start): again
                    time.sleep(1 + again)
                    _, d, p = start(i)
                    rc = wait(p, timeout * 0.6)
                    prog = rd("out.json.progress").strip()
                    if rc == 0 and os.path.exists(out):
                        break
                    if not (rc == 77 or prog.startswith("start") or not prog):
                        break
                if rc == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                    continue
                err = rd("stderr")
            if rc == 77 or prog.startswith("start") or not prog:
                inconclusive.append(f"shard {i}: rc={rc} {err[-600:]}")
                continue
            k = crash_key(err, rc, prog)
            pr = prog.split()
            m = re.search(r"(ERROR: AddressSanitizer|runtime error|abort|terminate)", err)
            s = max(0, m.start() - 200) if m else max(0, len(err) - 2500)
            vios.append({"key": k, "msg": err[s:s + 2500], "input": prog, "group": pr[0],
                         "idx": pr[1] if len(pr) > 1 and pr[1].lstrip("-").isdigit() else "-1", **at})
    return results, vios, inconclusive

def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        chk = CHECKS[r["property"]]
        exe = build_check(chk)
        e = build.env()
        e["VERIF_TIER"] = r["tier"]
        cmd = [exe, "--prop", r["property"], "--seed", str(r["seed"]), "--group", r["group"],
               "--case", str(r["idx"])]
        if r.get("ranks"):
            cmd = mpirun(r["ranks"], e) + cmd
        sys.exit(subprocess.run(cmd, env=e).returncode)
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    exe = build_check(chk)
    tb = time.time() - t0
    wd = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    nsh = chk.get("shards", 8)
    timeout = chk.get("timeout", 400) if tier == "quick" else 6000
    try:
        results, vios, inconclusive = run_shards(exe, pid, seed, tier, nsh, timeout, wd, mpi=chk.get("mpi"))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    agg = {"evaluations": 0, "oracle_evals": 0, "groups": {}, "oracles": {}, "counters": {},
           "worst": {}, "samples": []}
    distinct = set()
    merged = {}
    for r in results:
        agg["evaluations"] += r["evaluations"]
        agg["oracle_evals"] += r["oracle_evals"]
        distinct.update(r["distinct"])
        for f in ("groups", "oracles", "counters"):
            for k, v in r[f].items():
                agg[f][k] = agg[f].get(k, 0) + v
        for k, v in r["worst"].items():
            v = float("inf") if isinstance(v, str) else v
            agg["worst"][k] = max(agg["worst"].get(k, 0), v)
        for s in r["samples"]:
            g = s.split("#")[0]
            if sum(1 for x in agg["samples"] if x.split("#")[0] == g) < 1:
                agg["samples"].append(s)
        for v in r["violations"]:
            merged.setdefault(v["key"], v)
    for v in vios:
        merged.setdefault(v["key"], v)
    kn = known(pid)
    new, old = [], []
    for k, v in sorted(merged.items()):
        (old if k in kn else new).append(v)
    missing = [g for g in chk.get("require_groups", []) if not agg["groups"].get(g)]
    missing += [g for g in chk.get("require_counters", []) if not agg["counters"].get(g)]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(distinct),
                       "rule": chk["rule"], "samples": agg["samples"][:40],
                       "oracle_decisions": agg["oracle_evals"], "cases_per_group": agg["groups"],
                       "decisions_per_oracle": agg["oracles"], "events_observed": agg["counters"],
                       "worst_error_over_tolerance": {k: (v if v < 1e300 else 1e300) for k, v in agg["worst"].items()},
                       "known_findings_seen": [v["key"] for v in old],
                       "build_s": round(tb, 1)},
          "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['key']} {kn[v['key']]}")
    if new:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(new[:20]):
            p = os.path.join(rd, f"{pid}-{i}.json")
            json.dump({"property": pid, "seed": seed, "tier": tier, **v}, open(p, "w"), indent=1)
            log(f"--- {v['key']}: {v['msg'][:1500]}\n    input: {v['input'][:800]}")
            print(f"VIOLATION property={pid} replay={p}")
        sys.exit(1)
    if inconclusive or missing or agg["evaluations"] == 0:
        log("INCONCLUSIVE:", inconclusive[:3], "missing:", missing)
        sys.exit(2)
    print(f"ok {pid}: {agg['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{agg['oracle_evals']} oracle decisions, {ev['wall_s']} s (build {tb:.0f} s)")
    sys.exit(0)

main()
