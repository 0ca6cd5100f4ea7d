"""Run the child() function of a check under mpirun."""
import json
import os
import subprocess

from vlib.core import PY, clean_env

DROP = ("OMPI_M", "PMIX", "ORTE", "PMI_", "OPAL", "OMPI_C", "OMPI_U", "OMPI_F", "OMPI_A")


def mpirun(module, np_, case, out, opt=(), timeout=170):
    """returncode (None: timeout), log"""
    env = {k: v for k, v in clean_env(os.getcwd()).items() if not k.startswith(DROP)}
    env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "mpi_yield_when_idle", "1", "--mca", "btl", "self,vader",
           "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "plm", "isolated",
           "-n", str(np_), PY, "-W", "ignore", "-c", "from %s import child; child()" % module, json.dumps(case), out] + list(opt)
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        log, _ = p.communicate(timeout=timeout)
        return p.returncode, log.decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        log, _ = p.communicate()
        return None, log.decode(errors="replace")
