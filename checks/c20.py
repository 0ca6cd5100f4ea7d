"""Code generated in a given directory, and used again."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from checks import c22
from vlib import equiv, gen, pl, walls
from vlib.core import Sut

STEPS = 2


def dico_of(spec, directory=None, generate=None):
    d = walls.to_dico(spec)
    if directory:
        d["codegen_option"] = {"directory": directory}
        if generate is not None:
            d["codegen_option"]["generate"] = generate
    return d


def small(case):
    """The compilation is the cost."""
    return {"dim": 1 + case["seed"] % 2, "maxn": 4 + case["seed"] % 2} if case["gen"] == "cython" else {}


def files(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            if "__pycache__" in p:
                continue
            out[os.path.relpath(p, d)] = (hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns)
    return out


def leftovers():
    return {n for n in os.listdir(tempfile.gettempdir()) if n.endswith("_sympy_compile")}


def run(case, rec):
    rng = pl.rng_of(case)
    rec.ev("compiled_backend_cases", case["gen"] == "cython")
    base = tempfile.mkdtemp(prefix="c20-")
    cwd = os.getcwd()
    try:
        os.chdir(base)
        {"reload": reload, "replace": replace}[case["kind"]](case, rec, rng, base)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)


def directory(rng, base, rec, gen):
    rec.ev("directories")
    name = rng.choice(["code", "with space", "gen-1.2"] + ["a[b]"] * (gen == "numpy"))
    if rng.random() < 0.3:
        os.mkdir(os.path.join(base, name))
    return rng.choice([os.path.join(base, name), name, "./" + name + "/"])


def compare(rec, spec, ref, got, msg, desc):
    fluid = ref[1]
    for x, y in zip(ref[0], got[0]):
        r = c22.same(rec, spec, fluid, x, y, "codegen", msg, 1e-12, desc)
        if r is not True:
            return r
    rec.ev("runs", 2)
    return True


def other_size(rng, spec):
    s = equiv.clone(spec)
    if not spec.walls and rng.random() < 0.7:
        s.N = [n + rng.randint(0, 4) for n in spec.N]
    L = [n * s.dx for n in s.N]
    s.init = {c: gen.wave(rng, s.dim, L, s.xmin, 0.1, 0.9) for c in spec.init}
    return s


def reload(case, rec, rng, base):
    spec = c22.random_dico(rng, case["gen"], **small(case))
    if spec is None:
        rec.ev("skipped")
        return
    desc = walls.describe(spec)
    d = directory(rng, base, rec, case["gen"])
    desc["directory"] = os.path.basename(d)
    rec.sample(desc)
    before = leftovers()
    with Sut(rec, "simulation") as s:
        ref = c22.alone(walls.to_dico(spec), spec, STEPS)
        got = c22.alone(dico_of(spec, d), spec, STEPS)
    if s.failed or compare(rec, spec, ref, got, "code in a directory", desc) is not True:
        return
    rec.check(leftovers() <= before, "leftovers", "temporary directories are left behind: %s" % sorted(leftovers() - before), **desc)
    there = files(d)
    if not rec.check(any(n.startswith("wrapped_module") for n in there), "directory", "the generated code is not in the directory: %s" % sorted(there), **desc):
        return
    # the same code, for another state and size
    other = other_size(rng, spec)
    with Sut(rec, "simulation") as s:
        ref2 = c22.alone(walls.to_dico(other), other, STEPS)
    if s.failed:
        return
    for k in range(rng.randint(1, 2)):
        with Sut(rec, "generate False") as s:
            got2 = c22.alone(dico_of(other, d, False), other, STEPS)
        if s.failed or compare(rec, other, ref2, got2, "code used again", desc) is not True:
            return
        rec.ev("reloaded")
    now = files(d)
    rec.check(now == there, "rewritten", "generate False writes in the directory: %s" % sorted(n for n in set(now) | set(there) if now.get(n) != there.get(n)), **desc)
    if case["gen"] == "cython" or rng.random() < 0.35:
        out = os.path.join(base, "out.npz")
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        p = subprocess.run([sys.executable, "-c", "from checks import c20; c20.child()"], input=json.dumps([case, os.path.join(base, d), out]), env=env, text=True, capture_output=True, timeout=100)
        if not rec.check(os.path.exists(out), "process", "the code can not be used again in another process: %s" % p.stderr[-300:], **desc):
            return
        z = np.load(out)
        b = [(z["F"][k], {}, x[2], x[3]) for k, x in enumerate(ref[0])]
        a = [(x[0], {}, x[2], x[3]) for x in ref[0]]
        if compare(rec, spec, (a, ref[1]), (b, None), "code used again in another process", desc) is not True:
            return
        rec.ev("other_process")
    rec.state("reload", case["gen"], spec.dim, bool(spec.walls), other.N != spec.N, desc["directory"])


def child():
    case, d, out = json.loads(sys.stdin.read())
    rng = pl.rng_of(case)
    spec = c22.random_dico(rng, case["gen"], **small(case))
    a, _ = c22.alone(dico_of(spec, d, False), spec, STEPS)
    np.savez(out + ".tmp.npz", F=np.stack([x[0] for x in a]))
    os.rename(out + ".tmp.npz", out)


def replace(case, rec, rng, base):
    """Several simulations which write their code in the same directory."""
    spec = c22.random_dico(rng, case["gen"], **small(case))
    if spec is None:
        rec.ev("skipped")
        return
    specs = [spec]
    for _ in range(1 if case["gen"] == "cython" else rng.randint(1, 2)):
        s = c22.sibling(rng, spec) if rng.random() < 0.7 else c22.random_dico(rng, case["gen"], **small(case))
        if s is not None:
            specs.append(s)
    desc = walls.describe(specs[-1])
    rec.sample(desc)
    d = directory(rng, base, rec, case["gen"])
    with Sut(rec, "simulation") as s:
        refs = [c22.alone(walls.to_dico(x), x, STEPS) for x in specs]
        sols = [pl.simulation_of(dico_of(x, d)) for x in specs]
        got = [[c22.state(sol, x)] for sol, x in zip(sols, specs)]
        for k in range(STEPS):
            for sol, x, g in zip(sols, specs, got):
                sol.one_time_step()
                g.append(c22.state(sol, x))
    if s.failed:
        return
    for x, r, g in zip(specs, refs, got):
        if compare(rec, x, r, (g, None), "%d simulations whose codes go to the same directory" % len(specs), walls.describe(x)) is False:
            return
    rec.ev("replaced")
    # the directory has the code of the last one
    with Sut(rec, "generate False") as s:
        again = c22.alone(dico_of(specs[-1], d, False), specs[-1], STEPS)
    if s.failed:
        return
    if compare(rec, specs[-1], refs[-1], again, "code of the last one used again", desc) is True:
        rec.ev("reloaded")
    rec.state("replace", case["gen"], [x.dim for x in specs])
