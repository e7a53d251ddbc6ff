#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py   (development tool; not used by any check)

SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new), ...], DEMO (python text), NEEDS, BREAKS.
Applies the edits in a scratch copy of /repo, confirms demo (0 before / nonzero after) and the stable tests via
/root/runtests.sh equivalents on /repo (applied, then undone), writes /verif/seeded/ID/, then runs the property check.
"""
import os, subprocess, sys, json, runpy
spec = runpy.run_path(sys.argv[1])
nocheck = "--nocheck" in sys.argv
sid = spec["ID"]
d = f"/verif/seeded/{sid}"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
os.makedirs(d, exist_ok=True)
open(f"{d}/demo.py", "w").write(spec["DEMO"])
open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=${NUMBA_DISABLE_JIT:-1} PYTHONPATH="$PWD"\ncd "$PWD" && exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
if r0.returncode != 0:
    print("DEMO FAILS ON CLEAN TREE", r0.stdout[-800:], r0.stderr[-1500:]); sys.exit(2)
try:
    for f, old, new in spec["EDITS"]:
        p = f"/repo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with bug rc", r1.returncode, (r1.stdout + r1.stderr)[-300:])
    t = sh("bash /root/runtests.sh").stdout
    print("tests:", t.strip())
    ok = r1.returncode != 0 and "missing []" in t
    print("COUNTS" if ok else "DOES NOT COUNT")
    if ok and not nocheck:
        c = sh(f"/opt/venv/bin/python /verif/check.py {spec['PROPERTY']} quick", cwd="/verif")
        print("check rc", c.returncode, c.stdout[-600:])
finally:
    sh("git -C /repo checkout -- .")
if not ok:
    sh(f"rm -r {d}")
