#!/usr/bin/env python3
"""setup_cmd: nothing to build (pure Python); verify the interpreter and the library import."""
import os, subprocess, sys, tempfile, shutil

d = tempfile.mkdtemp(prefix="mc_setup_")
try:
    e = dict(os.environ, PYTHONPATH="/repo", HOME=d, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=d, MPLBACKEND="Agg")
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import riptable; print(riptable.__file__)"], env=e, cwd=d)
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
