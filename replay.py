#!/usr/bin/env python3
"""Replay the violations recorded in evidence/CNN.violation.json, one case at a time, without the parallel driver."""
import json, os, shutil, subprocess, sys, tempfile
import check

d = json.load(open(sys.argv[1]))
seen = set()
rc = 0
for v in d["violations"]:
    k = (v["space"], v["index"])
    if k in seen:
        continue
    seen.add(k)
    sc = tempfile.mkdtemp(prefix="mc_replay_")
    os.makedirs(sc + "/home"); os.makedirs(sc + "/w0")
    mode = "" if not check.uses_modes(d["property"]) else "jit" if v["space"].endswith("[jit]") else "nojit"
    p = subprocess.run([check.PY, "-m", "mc.worker", d["property"], "0", "0", "1", d["tier"], "1", sc, v["space"], str(v["index"])], cwd=sc + "/w0", env=check.mode_env(check.worker_env(sc), mode))
    r = check.load(sc, 0)
    if r is None:
        print(v["space"], v["index"], "died rc", p.returncode); rc = 1
    else:
        for x in r["violations"]:
            print(x["space"], x["index"], x["case_repr"], "::", x["msg"]); rc = 1
        if not r["violations"]:
            print(v["space"], v["index"], "no violation on replay")
    shutil.rmtree(sc, ignore_errors=True)
sys.exit(rc)
