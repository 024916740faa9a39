#!/usr/bin/env python3
"""Run one check:  python run.py C07 [--tier quick|thorough] [--replay FILE]"""
import os, sys, tempfile, shutil, atexit
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
_tmp = tempfile.mkdtemp(prefix="verifmpl")
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_tmp, ignore_errors=True))
os.environ.update(MPLBACKEND="Agg", MPLCONFIGDIR=_tmp, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                  PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, REPO_SRC]
sys.setrecursionlimit(3000)
from mc.core import main
if __name__ == "__main__":
    sys.exit(main(ROOT, sys.argv[1:]))
