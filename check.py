#!/usr/bin/env python3
"""Driver: check.py CNN   (tier from VERIF_TIER, seed from VERIF_SEED).

Starts one worker process per core, each exploring its share of the property's bounded space against the riptable
sources in /repo, merges the results, writes evidence/CNN.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
HANG_S = 240
TOTAL_S = int(os.environ.get("MC_TOTAL_S", "860"))


def worker_env(scratch):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "MC_ONLY", "MC_MAXVIOL", "TZ", "MC_REPO")}
    e.setdefault("LANG", "C.UTF-8")
    e.update(PYTHONPATH=f"{REPO}:{HERE}", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
             HOME=os.path.join(scratch, "home"), NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), MPLBACKEND="Agg", PYTHONHASHSEED="0",
             NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=scratch, PYTHONFAULTHANDLER="0")
    return e


def uses_modes(prop):
    return "\nMODES = True" in open(os.path.join(HERE, "mc", "props", prop.lower() + ".py")).read()


def mode_env(env, mode):
    e = dict(env, MC_MODE=mode)
    if mode == "nojit":
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    total = TOTAL_S if tier == "quick" else int(os.environ.get("MC_TOTAL_S", "14000"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n = int(os.environ.get("MC_SHARDS", str(max(1, min(8, os.cpu_count() or 1)))))
    # modules that set MODES run their wide spaces with numba kernels interpreted (NUMBA_DISABLE_JIT) and a
    # smaller set of spaces with the compiled kernels
    if uses_modes(prop):
        plan = [("nojit", i, n) for i in range(n)] + [("jit", i, max(1, n // 2)) for i in range(max(1, n // 2))]
    else:
        plan = [("", i, n) for i in range(n)]
    n = len(plan)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    os.makedirs(os.path.join(scratch, "home"))
    procs = []
    try:
        env = worker_env(scratch)
        for s, (mode, shard, nshards) in enumerate(plan):
            wd = os.path.join(scratch, f"w{s}")
            os.makedirs(wd)
            lf = open(os.path.join(scratch, f"log{s}"), "wb")
            procs.append(subprocess.Popen([PY, "-m", "mc.worker", prop, str(s), str(shard), str(nshards), tier, str(seed), scratch], cwd=wd, env=mode_env(env, mode),
                                          stdout=lf, stderr=subprocess.STDOUT, start_new_session=True))
        last = [(None, t0)] * n
        dead, hung, timeout = [], [], False
        first_violation = None
        while True:
            alive = [i for i, p in enumerate(procs) if p.poll() is None]
            now = time.time()
            for i in alive:
                cur = slot(scratch, i)
                if cur != last[i][0]:
                    last[i] = (cur, now)
                elif now - last[i][1] > HANG_S and cur and not cur.startswith("import"):
                    hung.append((i, cur))
            if hung or now - t0 > total:
                timeout = now - t0 > total
                break
            # one worker found violations: give the others a little time, then stop
            if first_violation is None:
                for i, p in enumerate(procs):
                    if p.poll() is not None:
                        r = load(scratch, i)
                        if r is None or r["violations"]:
                            first_violation = now
            elif now - first_violation > 5 and "MC_MAXVIOL" not in os.environ:
                break
            if not alive:
                break
            time.sleep(0.2)
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p._mc_killed = True
        for p in procs:
            p.wait()
        res, viol, errors = [], [], []
        for i, p in enumerate(procs):
            r = load(scratch, i)
            if r is None:
                if getattr(p, "_mc_killed", False):
                    continue
                cur = slot(scratch, i) or ""
                log = open(os.path.join(scratch, f"log{i}"), "rb").read().decode("utf8", "replace")[-1500:]
                if p.returncode < 0 and p.returncode != -9:
                    viol.append(parse_slot(cur, f"process died with signal {-p.returncode}"))
                else:
                    errors.append(f"worker {i} rc={p.returncode} at {cur[:200]}: {log}")
                continue
            res.append(r)
            viol += r["violations"]
            if r["error"]:
                errors.append(f"worker {i}: {r['error']}")
        for i, cur in hung:
            viol.append(parse_slot(cur, f"no progress for {HANG_S}s"))
        known_ids = sorted({k for r in res for k in r["known"]})
        evidence(prop, tier, seed, res, viol, t0, n, timeout, known_ids)
        kfile = os.path.join(HERE, "known_findings.json")
        known = {k["id"]: k for k in json.load(open(kfile))["findings"]} if os.path.exists(kfile) else {}
        for k in known_ids:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]['what']}")
        if viol:
            rp = os.path.join(HERE, "evidence", f"{prop}.violation.json")
            viol.sort(key=lambda v: (v["space"], v["index"]))
            json.dump({"property": prop, "tier": tier, "violations": viol[:20],
                       "how_to_replay": f"python3 replay.py evidence/{prop}.violation.json"}, open(rp, "w"), indent=1)
            for v in viol[:int(os.environ.get("MC_SHOW", "5"))]:
                print(f"  [{v['space']} #{v['index']}] {v['case_repr'][:300]} :: {v['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        if errors or timeout or len(res) < n:
            print("CHECK ERROR", "timeout" if timeout else "", *errors, sep="\n")
            return 2
        st = sum(r["states"] for r in res); tr = sum(r["transitions"] for r in res)
        print(f"OK property={prop} tier={tier} states={st} transitions={tr} wall={time.time()-t0:.1f}s")
        if os.environ.get("MC_VERBOSE"):
            agg = {}
            for r in res:
                for k, v in r["space_time"].items():
                    a = agg.setdefault(k, [0, 0, 0, set()])
                    a[0] += v; a[1] += r["spaces"][k]["executed"]; a[2] += r["spaces"][k]["ops"]; a[3] |= set(r["outcomes"].get(k, []))
            for k, v in sorted(agg.items(), key=lambda kv: -kv[1][0]):
                print(f"   {k:40s} cpu={v[0]:7.1f}s cases={v[1]} ops={v[2]} outcomes={len(v[3])}")
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)


def slot(scratch, i):
    try:
        b = open(os.path.join(scratch, f"slot{i}"), "rb").read()
        return b.split(b"\0", 1)[0].decode("utf8", "replace")
    except OSError:
        return None


def parse_slot(cur, msg):
    parts = (cur.split("\t", 2) + ["", "0", ""])[:3]
    return {"space": parts[0], "index": int(parts[1] or 0), "case": None, "case_repr": parts[2][:1000], "key": None, "msg": msg}


def load(scratch, i):
    try:
        return json.load(open(os.path.join(scratch, f"res{i}.json")))
    except (OSError, ValueError):
        return None


def evidence(prop, tier, seed, res, viol, t0, n, timeout, known):
    spaces = {}
    for r in res:
        for k, v in r["spaces"].items():
            s = spaces.setdefault(k, {"cases_in_space": 0, "cases_executed": 0, "operations_compared": 0, "distinct_outcomes": set()})
            s["cases_in_space"] = max(s["cases_in_space"], v["cases"])
            s["cases_executed"] += v["executed"]
            s["operations_compared"] += v["ops"]
            s["distinct_outcomes"] |= set(r["outcomes"].get(k, []))
    for s in spaces.values():
        s["distinct_outcomes"] = len(s["distinct_outcomes"])
    samples = []
    for r in res[:1]:
        for k, v in r["samples"].items():
            samples.append({"space": k, "case": v[0]})
    exhaustive = bool(res) and len(res) == n and not timeout and not viol and all(s["cases_executed"] == s["cases_in_space"] for s in spaces.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in res),
            "transitions": sum(r["transitions"] for r in res),
            "traces_validated_against_impl": sum(r["traces"] for r in res),
            "samples": samples[:12],
            "spaces": spaces,
            "exhaustive": exhaustive,
            "workers": len(res),
            "known_findings_seen": known,
            "meaning": "states: distinct cases (inputs/histories/options) of the enumerated spaces; transitions: real library operations executed and compared with the reference model; "
                       "traces_validated_against_impl: complete cases executed on the real code in /repo (the model has no other traces)",
        },
        "assumptions": ["riptide_cpp, numpy, numba, pandas, pyarrow as installed in /opt/venv", "bounds as listed per space in DESIGN.md"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
