"""Simulations are independent of each other and of what is read from them."""
import copy
import io
import json
import os
import subprocess
import sys
import tempfile
import contextlib

import numpy as np
import sympy as sp

import pylbm

from checks import c21
from vlib import equiv, gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

STEPS = 3


def random_dico(rng, generator, dim=None, maxn=None):
    for _ in range(20):
        spec = gen.random_spec(
            rng, dim=dim or rng.choice([1, 2, 2, 3]), stencil_kind=rng.choice(["classic", "perm", "sym"]), maxn=maxn or (9 if generator == "numpy" else 5), sources=rng.random() < 0.3,
            relvel=rng.random() < 0.2, scale=0.15, maxv=2, sizes={1: (6, 14), 2: (5, 9), 3: (4, 5)}, simple=rng.random() < 0.5,
        )
        if spec.rel_vel is not None and spec.nv > 12:
            # the expressions of sympy are slow
            continue
        equiv.no_walls(spec)
        if rng.random() < 0.5 and equiv.symmetric_stencils(spec) and not equiv.with_sides(rng, spec):
            continue
        if Ref(spec).cond < 1e5 and not equiv.degenerate(spec):
            break
    else:
        return None
    for s in spec.schemes:
        s.s = [0 if i in s.cons_idx.values() and spec.rel_vel is not None else v for i, v in enumerate(s.s)]
        if all(isinstance(v, (int, float, sp.Number)) and float(v) == 0 for v in s.s):
            s.s[-1] = 1.1
    spec.generator = generator
    return spec


def sibling(rng, spec):
    """The same scheme with other values: the generated codes differ by some digits."""
    s = equiv.clone(spec)
    for x in s.schemes:
        x.s = [v if (isinstance(v, sp.Expr) and v.free_symbols) or float(v) == 0 else 0.5 + 0.1 * rng.randint(1, 9) for v in x.s]
    return s


def state(sol, spec):
    with np.errstate(all="ignore"):
        F = pl.get_F(sol, spec)
    return F, {str(c): np.array(sol.m[c]) for c in spec.consm}, sol.t, sol.nt


def mask(sol, spec):
    vm = list(sol.domain.stencil.vmax)
    return (np.asarray(sol.domain.in_or_out) == sol.domain.valin)[tuple(slice(v, v + n) for v, n in zip(vm, spec.N))]


def same(rec, spec, fluid, a, b, mech, msg, rtol, desc):
    """States a and b, before and after."""
    A, B = a[0][:, fluid], b[0][:, fluid]
    rec.ev("steps_compared")
    if not np.all(np.isfinite(A)) or np.abs(A).max() > 1e4:
        rec.ev("skipped_unstable")
        return None
    rec.ev("values_compared", A.size)
    if not rec.check(a[2:] == b[2:], mech, "%s: the times are %s and %s" % (msg, a[2:], b[2:]), **desc):
        return False
    ok, err = close(A, B, rtol)
    if not rec.check(ok, mech, "%s: the states differ by %.3g after %d step(s)" % (msg, err, a[3]), **desc):
        return False
    for c in a[1]:
        ok, err = close(a[1][c][fluid], b[1][c][fluid], rtol)
        if not rec.check(ok, mech, "%s: the moments %s differ by %.3g after %d step(s)" % (msg, c, err, a[3]), **desc):
            return False
    return True


def alone(dico, spec, steps=STEPS):
    sol = pl.simulation_of(dico)
    out = [state(sol, spec)]
    for _ in range(steps):
        sol.one_time_step()
        out.append(state(sol, spec))
    return out, mask(sol, spec)


def snapshot(x):
    """What the user can see in a dictionary."""
    if isinstance(x, dict):
        return ("dict", [(snapshot(k), snapshot(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tolist())
    if isinstance(x, (int, float, str, bool, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, sp.Basic):
        return ("sympy", sp.srepr(x))
    if isinstance(x, sp.MatrixBase):
        return ("matrix", sp.srepr(sp.ImmutableMatrix(x)))
    if isinstance(x, pylbm.elements.base.Element):
        return (type(x).__name__, id(x), {k: snapshot(v) for k, v in sorted(vars(x).items()) if not k.startswith("_")})
    return (type(x).__name__, id(x))


def unchanged(rec, before, dico, desc, what):
    rec.ev("dictionaries_compared")
    after = snapshot(dico)
    if after == before:
        return rec.check(True, "dictionary", "")
    keys = [a[0][1] for a, b in zip(before[1], after[1]) if a != b]
    return rec.check(False, "dictionary", "%s changes the dictionary of the user (%s)" % (what, keys or "its keys"), **desc)


def run(case, rec):
    rng = pl.rng_of(case)
    rec.ev("compiled_backend_cases", case["gen"] == "cython")
    {"interleave": interleave, "extra": extra, "reuse": reuse, "observe": observe, "process": process}[case["kind"]](case, rec, rng)


def interleave(case, rec, rng):
    n = 2 if case["gen"] == "cython" else rng.choice([2, 3])
    specs = []
    for i in range(n):
        if specs and rng.random() < 0.5:
            s = sibling(rng, specs[0])
        else:
            s = random_dico(rng, case["gen"] if i == 0 or rng.random() < 0.5 else "numpy", dim=specs[0].dim if specs and rng.random() < 0.5 else None)
        if s is None:
            rec.ev("skipped")
            return
        specs.append(s)
    descs = [walls.describe(s) for s in specs]
    rec.sample(descs[0])
    refs, sols = [], []
    with Sut(rec, "simulation") as s:
        for spec in specs:
            refs.append(alone(walls.to_dico(spec), spec))
    if s.failed:
        return
    late = rng.random() < 0.4
    plan = [i for i in range(n) for _ in range(STEPS)]
    rng.shuffle(plan)
    sols = [None] * n
    with Sut(rec, "simulation") as s:
        if not late:
            sols = [pl.simulation_of(walls.to_dico(spec)) for spec in specs]
        for i in plan:
            if sols[i] is None:
                sols[i] = pl.simulation_of(walls.to_dico(specs[i]))
            sols[i].one_time_step()
            k = sols[i].nt
            ok = same(rec, specs[i], refs[i][1], refs[i][0][k], state(sols[i], specs[i]), "interleave", "a simulation among %d (steps %s)" % (n, plan), 1e-12, descs[i])
            if not ok:
                break
    if not s.failed:
        rec.ev("runs", 2 * n)
        rec.ev("interleaved")
        rec.state("interleave", case["gen"], [s.dim for s in specs], late)


def extra(case, rec, rng):
    """Simulations with the same symbols, whose values are given to each after its creation."""
    for _ in range(20):
        spec = random_dico(rng, case["gen"])
        if spec is None or spec.params:
            continue
        other = c21.parametrize(rng, spec, chain=False)
        bad = {"dt", "nx", "m", "f", "i", "def", "int", "t0", "E", "S"}
        given = {y: float(v) for y, v in other.params.items() if str(y) not in bad and y != other.la_symbol}
        if given:
            break
    else:
        rec.ev("skipped")
        return
    full = dict(other.params)
    other.params = {y: v for y, v in full.items() if y not in given}
    n = rng.choice([2, 2, 3])
    values = [given] + [{y: v * rng.uniform(0.8, 1.2) for y, v in given.items()} for _ in range(n - 1)]
    rng.shuffle(values)
    desc = dict(walls.describe(other), values=[{str(k): v for k, v in x.items()} for x in values])
    rec.sample(desc)
    refs = []
    with Sut(rec, "simulation") as s:
        for x in values:
            t = equiv.clone(other)
            t.params = dict(full, **{}) | x
            refs.append(alone(walls.to_dico(c21.numeric(t)), spec))
    if s.failed:
        return
    plan = [i for i in range(n) for _ in range(STEPS)]
    rng.shuffle(plan)
    shape = rng.randint(0, 2)
    with Sut(rec, "simulation") as s:
        sols = [pl.simulation_of(walls.to_dico(other), initialize=False) for _ in range(n)]
        # all of them first, item by item or not, or each before its first step
        if shape < 2:
            for sol, x in zip(sols, values):
                give(sol, x, shape)
        for i in plan:
            sol = sols[i]
            if shape == 2 and sol.nt == 0:
                give(sol, values[i], 0)
            sol.one_time_step()
            k = sol.nt
            ok = same(rec, spec, refs[i][1], refs[i][0][k], state(sol, spec), "extra", "a simulation among %d with their own extra_parameters (steps %s)" % (n, plan), 1e-9, desc)
            if not ok:
                break
    if not s.failed:
        rec.ev("runs", 2 * n)
        rec.ev("extra_parameters")
        rec.state("extra", case["gen"], spec.dim, n, shape)


def give(sol, values, how):
    if how == 0:
        for k, v in values.items():
            sol.extra_parameters[k] = v
    else:
        sol.extra_parameters = dict(values)


def reuse(case, rec, rng):
    spec = random_dico(rng, case["gen"])
    if spec is None:
        rec.ev("skipped")
        return
    if len(spec.schemes) == 1 and spec.rel_vel is None and rng.random() < 0.4:
        spec.schemes[0].use_M = True
        rec.ev("matrices")
    desc = walls.describe(spec)
    rec.sample(desc)
    dico = walls.to_dico(spec)
    before = snapshot(dico)
    what = []
    with Sut(rec, "simulation") as s:
        a, fluid = alone(dico, spec)
    if s.failed or not unchanged(rec, before, dico, desc, "Simulation"):
        return
    for name in rng.sample(["Geometry", "Domain", "Scheme", "Stability", "EquivalentEquation", "Simulation"], rng.randint(1, 4)):
        with Sut(rec, name) as s:
            if name in ("Stability", "EquivalentEquation"):
                if spec.dim == 3 or spec.rel_vel is not None or any(x.source for x in spec.schemes) or len(desc["schemes"]) > 2:
                    continue
                sch = pylbm.Scheme(dico)
                if name == "Stability":
                    pylbm.Stability(sch).eigenvalues([1.0] * len(spec.consm), 9)
                else:
                    pylbm.EquivalentEquation(sch)
            elif name == "Simulation":
                pl.simulation_of(dico, initialize=False)
            else:
                getattr(pylbm, name)(dico)
        if s.failed or not unchanged(rec, before, dico, desc, name):
            return
        what.append(name)
    with Sut(rec, "simulation") as s:
        b, _ = alone(dico, spec)
    if s.failed or not unchanged(rec, before, dico, desc, "Simulation"):
        return
    for x, y in zip(a, b):
        if not same(rec, spec, fluid, x, y, "reuse", "the same dictionary again, after %s" % what, 1e-12, desc):
            return
    rec.ev("runs", 2)
    rec.ev("reused")
    rec.state("reuse", case["gen"], spec.dim, what)


def observation(rng, sol, spec, name):
    dim = spec.dim
    if name == "str":
        str(sol), repr(sol), str(sol.scheme), str(sol.domain)
    elif name == "m":
        for c in rng.sample(spec.consm, len(spec.consm)):
            sol.m[c].sum(), sol.m_halo[c].shape
    elif name == "F":
        for k in range(spec.nv):
            sol.F[k].sum(), sol.F_halo[k].shape
    elif name == "f2m":
        sol.f2m()
    elif name == "time":
        sol.t, sol.dt, sol.nt, sol.dim
    elif name == "scheme":
        sol.scheme.M, sol.scheme.invM, sol.scheme.EQ_no_swap, sol.scheme.M_no_swap, sol.scheme.s_no_swap
    elif name == "stability":
        if dim < 3 and not any(x.source for x in spec.schemes) and spec.rel_vel is None:
            pylbm.Stability(sol.scheme).eigenvalues([1.0] * len(spec.consm), 9)
    elif name == "equivalent":
        if dim < 3 and not any(x.source for x in spec.schemes) and spec.rel_vel is None and spec.nv < 10:
            pylbm.EquivalentEquation(sol.scheme)
    elif name == "hdf5":
        d = tempfile.mkdtemp(prefix="c22-")
        try:
            h = pylbm.H5File(sol.domain.mpi_topo, "f", d, sol.nt)
            h.set_grid(*[sol.domain.coords[k] for k in range(dim)])
            for i, c in enumerate(spec.consm):
                h.add_scalar("q%d" % i, sol.m[c])
            h.save()
        finally:
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)
    elif name == "list":
        sol.domain.geom, sol.domain.list_elements() if hasattr(sol.domain, "list_elements") else None
        list(sol.domain.coords), list(sol.domain.coords_halo)


NAMES = ["str", "m", "F", "f2m", "time", "scheme", "stability", "equivalent", "hdf5", "list"]


def observe(case, rec, rng):
    spec = random_dico(rng, case["gen"])
    if spec is None:
        rec.ev("skipped")
        return
    desc = walls.describe(spec)
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        # the reference never looks at its moments
        sol = pl.simulation_of(walls.to_dico(spec))
        fluid = mask(sol, spec)
        for _ in range(STEPS):
            sol.one_time_step()
        last = state(sol, spec)
        other = pl.simulation_of(walls.to_dico(spec))
    if s.failed:
        return
    done = []
    for k in range(STEPS):
        for name in rng.sample(NAMES, rng.randint(1, 5)):
            with Sut(rec, "observation %s" % name) as s:
                with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                    observation(rng, other, spec, name)
            if s.failed:
                return
            done.append(name)
            rec.ev("observations")
        with Sut(rec, "simulation") as s:
            other.one_time_step()
        if s.failed:
            return
    rec.ev("runs", 2)
    same(rec, spec, fluid, last, state(other, spec), "observe", "with observations (%s)" % ", ".join(done), 1e-12, desc)
    rec.state("observe", case["gen"], spec.dim, sorted(set(done)))


def process(case, rec, rng):
    spec = random_dico(rng, case["gen"])
    if spec is None:
        rec.ev("skipped")
        return
    desc = walls.describe(spec)
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        a, fluid = alone(walls.to_dico(spec), spec)
    if s.failed:
        return
    d = tempfile.mkdtemp(prefix="c22-")
    out = os.path.join(d, "out.npz")
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 4000000)), PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        p = subprocess.run([sys.executable, "-c", "from checks import c22; c22.child()"], input=json.dumps([case, out]), env=env, text=True, capture_output=True, timeout=100)
        if not os.path.exists(out):
            rec.check(False, "process", "the simulation fails in another process: %s" % p.stderr[-300:], **desc)
            return
        z = np.load(out, allow_pickle=False)
        if str(z["desc"]) != json.dumps(desc, sort_keys=True, default=str):
            rec.ev("different_dictionaries")
            return
        rec.ev("processes")
        rec.ev("runs", 2)
        for k in range(STEPS + 1):
            b = (z["F%d" % k], {str(c): z["m%d_%d" % (k, i)] for i, c in enumerate(spec.consm)}, float(z["t"][k]), int(z["n"][k]))
            if not same(rec, spec, fluid, a[k], b, "process", "in another process", 1e-9, desc):
                return
        rec.state("process", case["gen"], spec.dim, len(spec.consm), bool(spec.walls))
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def child():
    case, out = json.loads(sys.stdin.read())
    rng = pl.rng_of(case)
    spec = random_dico(rng, case["gen"])
    desc = walls.describe(spec)
    a, _ = alone(walls.to_dico(spec), spec)
    d = {"desc": json.dumps(desc, sort_keys=True, default=str), "t": [x[2] for x in a], "n": [x[3] for x in a]}
    for k, x in enumerate(a):
        d["F%d" % k] = x[0]
        for i, c in enumerate(spec.consm):
            d["m%d_%d" % (k, i)] = x[1][str(c)]
    np.savez(out + ".tmp.npz", **d)
    os.rename(out + ".tmp.npz", out)
