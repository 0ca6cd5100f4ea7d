#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
run.py --selftest: the tools which the checks need are there."""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if sys.argv[1:] == ["--selftest"]:
    from vlib.core import PY, REPO, clean_env

    subprocess.run([PY, "-c", "import numpy, sympy, h5py, mpi4py, Cython"], check=True, env=clean_env())
    missing = [t for t in ("gcc", "mpirun") if shutil.which(t, path=clean_env()["PATH"]) is None]
    if missing:
        sys.exit("missing: %r" % missing)
    print("ready, checking", REPO)
    sys.exit(0)

from vlib.core import main

sys.exit(main())
