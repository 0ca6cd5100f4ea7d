"""The compiled code stays in its arrays."""
import glob
import json
import os
import re
import subprocess
import sys

import numpy as np

from vlib.core import PY, VERIF, Sut, clean_env

SAN = "-fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -g1"


def lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True).stdout.strip()


def run(case, rec):
    out = os.path.join(os.getcwd(), "out%d.json" % case["seed"])
    env = clean_env(os.getcwd())
    logs = os.path.join(os.getcwd(), "san%d" % case["seed"])
    env.update(
        LD_PRELOAD="%s:%s" % (lib("libasan.so"), lib("libubsan.so")),
        ASAN_OPTIONS="detect_leaks=0:log_path=%s:exitcode=77:detect_stack_use_after_return=0" % logs,
        UBSAN_OPTIONS="log_path=%s:print_stacktrace=0" % logs,
        PYTHONMALLOC="malloc",
        CFLAGS=SAN,
        VERIF_SAN="1",
        PYTHONPATH=os.path.join(VERIF, "vlib", "site") + os.pathsep + env["PYTHONPATH"],
        LDFLAGS="-fsanitize=address,undefined",
    )
    p = subprocess.run([PY, "-W", "ignore", "-c", "from checks.c13 import child; child()", json.dumps(case), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    text = ""
    for name in glob.glob(logs + "*"):
        with open(name, errors="replace") as f:
            text += f.read()
        os.remove(name)
    text += p.stdout.decode(errors="replace")
    reports = [l for l in text.splitlines() if "runtime error:" in l or "ERROR: AddressSanitizer" in l]
    where = [l.strip() for l in text.splitlines() if "wrapped_module" in l]
    res = {}
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    if case["kind"] == "self":
        # the monitors see the errors planted in a module of their own
        kinds = {"asan": any("AddressSanitizer" in l for l in reports), "bounds": res.get("bounds"), "ubsan": any("runtime error" in l for l in reports), "uninit": res.get("uninit")}
        if not all(kinds.values()):
            raise RuntimeError("the sanitizers do not work here: %s %s" % (kinds, p.stdout.decode(errors="replace")[-1500:]))
        rec.ev("selftests")
        return
    for k, v in res.get("events", {}).items():
        rec.ev(k, v)
    for s in res.get("states", []):
        rec.state(s)
    if res.get("desc"):
        rec.sample(res["desc"])
    for v in res.get("violations", []):
        rec.violate(v["mech"], v["msg"], **v["detail"])
    mine = [l for l in reports if "wrapped_module" in l or "AddressSanitizer" in l]
    if mine:
        m = re.sub(r"0x[0-9a-f]+", "0x..", mine[0].split("runtime error:")[-1].split("ERROR:")[-1])
        rec.violate("sanitizer", "the compiled code: %s (%d reports; %s)" % (m.strip()[:300], len(mine), where[:2]), spec=res.get("desc"))
    rec.ev("oracle_evaluations", res.get("events", {}).get("calls_monitored", 0))
    if not res and not mine:
        tail = p.stdout.decode(errors="replace")[-2500:]
        if p.returncode < 0:
            rec.violate("crash", "the compiled code dies with signal %d" % -p.returncode, tail=tail[-800:])
        else:
            raise RuntimeError("exit %d: %s %s" % (p.returncode, tail, text[-500:]))


# ---------------------------------------------------------------------------
# under the sanitizers


SELF = """
#cython: language_level=3
#cython: boundscheck=False
#cython: wraparound=False
#cython: cdivision=True
def good(double[:, ::1] f, int i):
    f[i, 0] = 1.0
def over(double[::1] f, int n):
    cdef int i
    for i in range(0, n):
        f[i] = 1.0
def local(int n):
    cdef double m[4]
    cdef int i
    cdef double s = 0
    for i in range(0, n):
        m[i] = 1.0
        s += m[i]
    return s
def uninit(int n):
    cdef double x
    if n > 3:
        x = 1.0
    return x
"""


def child_self(case, out):
    import importlib

    d = os.path.join(os.getcwd(), "self")
    os.makedirs(d)
    with open(os.path.join(d, "planted.pyx"), "w") as f:
        f.write(SELF)
    with open(os.path.join(d, "setup.py"), "w") as f:
        f.write("from setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy as np\n"
                "setup(ext_modules=cythonize([Extension('planted', [%r], include_dirs=[np.get_include()], extra_compile_args=['-O3', '-w'])]))\n" % os.path.join(d, "planted.pyx"))
    subprocess.run([sys.executable, os.path.join(d, "setup.py"), "build_ext", "--build-lib=" + d], check=True)
    sys.path.append(d)
    mod = importlib.import_module("planted")
    res = {}
    x = mod.uninit(2)
    res["uninit"] = not abs(x) < 1e100
    try:
        mod.good(np.zeros((3, 3)), 3)
    except IndexError:
        res["bounds"] = True
    with open(out, "w") as f:
        json.dump(res, f)
    mod.local(5)  # UBSan, then AddressSanitizer ends the process


def child():
    case, out = json.loads(sys.argv[1]), sys.argv[2]
    sys.argv = ["x"]
    from vlib.core import Rec

    rec = Rec()
    import pylbm
    from checks import c02
    from vlib import gen, pl, walls
    from vlib.lbm_oracle import Ref, close

    if case["kind"] == "self":
        return child_self(case, out)
    rng = pl.rng_of(case)
    for attempt in range(8):
        spec = c02.make(case, rng)
        ref, fl = Ref(spec), walls.fluid_of(spec)
        if ref.cond > 1e5 or fl.ambiguous.any() or not fl.fluid.any():
            continue
        if spec.walls:
            try:
                walls.RefWalls(spec, ref, fl, pylbm.Domain(walls.to_dico(spec)))
            except walls.Degenerate:
                continue
        break
    else:
        return done(rec, out, None)
    g, order, algo, settings = c02.variant(rng, spec.dim, True, False)
    desc = walls.describe(spec)
    desc["variant"] = [str(order), algo, settings]
    fluid = fl.fluid
    f0 = ref.init_f()
    if not pl.stable(ref, f0):
        return done(rec, out, None)

    spec.algo = getattr(pylbm.algorithm, algo) if algo else None
    spec.settings = settings
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec, "cython"), sorder=order)
    if s.failed:
        return done(rec, out, desc)
    rec.ev("modules")
    sol_np = pl.simulation_of(dict(walls.to_dico(spec, "numpy"), **({} if spec.settings is None and spec.algo is None else {"lbm_algorithm": {"name": pylbm.algorithm.PullAlgorithm}})))
    names = [n for n in dir(sol.generator.module) if callable(getattr(sol.generator.module, n)) and not n.startswith("_")]
    # the tables of indices are inside of the arrays
    for b in sol.bc.methods:
        rec.ev("boundary_routines")
        tabs = [b.istore] + list(b.iload)
        for t in tabs:
            t = np.asarray(t)
            nv_first = sol.container.F.swaparray.shape
            ok = t.size == 0 or all((t[:, d] >= 0).all() and (t[:, d] < nv_first[d]).all() for d in range(t.shape[1]))
            rec.check(ok, "indices", "the indices of %s leave the arrays of shape %s" % (type(b).__name__, nv_first), spec=desc)
    nphase = 0
    try:
        for k in range(3):
            sol.one_time_step()
            sol_np.one_time_step()
            a, b = pl.get_F(sol, spec)[:, fluid], pl.get_F(sol_np, spec)[:, fluid]
            nphase += 1 + len(sol.bc.methods)
            if not pl.stable(ref, b):
                break
            rec.ev("values_compared", a.size)
            if not rec.check(close(a, b)[0], "uninitialised", "with poisoned local variables, the distributions of the compiled code differ by %.3g" % close(a, b)[1], spec=desc):
                break
        F = pl.get_F(sol, spec)
        pl.set_F(sol, np.where(np.isfinite(F), F, 0.0))
        sol.boundary_condition()
        sol.transport()
        sol.f2m()
        if ref.src:
            sol.source_term()
        sol.relaxation()
        sol.equilibrium()
        sol.m2f()
        nphase += 6 + len(sol.bc.methods)
        for n in names:
            rec.state(n if not any(c.isdigit() for c in n) else re.sub(r"\d+", "", n), spec.dim, str(order), algo, str(settings))
    except IndexError as e:
        rec.violate("bounds", "an index of the compiled code is out of bounds: %s" % e, spec=desc)
    except BaseException as e:
        import traceback

        rec.violate("exception", "%s: %s" % (type(e).__name__, str(e)[:300]), spec=desc, trace=traceback.format_exc()[-1200:])
    rec.ev("calls_monitored", nphase)
    done(rec, out, desc)


def done(rec, out, desc):
    o = rec.out()
    o["desc"] = desc
    with open(out, "w") as f:
        json.dump(o, f)
