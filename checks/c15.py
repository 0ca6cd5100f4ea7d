"""Initial state, coordinates and time of a simulation."""
import functools
import math

import numpy as np
import sympy as sp

import pylbm
from vlib import gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (5, 16), 2: (4, 10), 3: (3, 6)}


def entry(rng, dim, mean):
    """(form, what the dictionary takes, values at coordinates)"""
    form = rng.choice(["float", "int", "func", "func", "args", "args", "partial", "discontinuous", "constant"])
    a, b, c = rng.uniform(-0.2, 0.2), rng.uniform(-0.3, 0.3), rng.uniform(0, 3)
    if form == "float":
        v = rng.choice([mean, np.float64(mean + a)])
        return form, v, lambda x: 0 * sum(x) + v
    if form == "int":
        v = rng.choice([1, 2, 0]) if mean < 0.9 else rng.choice([1, 2])
        return form, v, lambda x: 0 * sum(x) + v
    ks = [rng.uniform(0.5, 2) for _ in range(dim)]
    if form == "partial":
        # a function of one coordinate only
        d = rng.randrange(dim)

        def f(*x):
            return mean + a * np.cos(c + ks[0] * x[d])

        return form, f, lambda x: f(*x) + 0 * sum(x)
    if form == "discontinuous":
        d = rng.randrange(dim)

        def f(*x):
            return mean + a * (x[d] < c) + b * sum(x) * 0.01

        return form, f, lambda x: f(*x)
    if form == "constant":

        def f(*x):
            return mean

        return form, f, lambda x: mean + 0 * sum(x)

    def g(x, u, w):
        return mean + a * np.cos(w + sum(k * y for k, y in zip(ks, x))) + u * 0.1

    if form == "args":
        n = rng.choice([1, 2, 3])
        args = tuple(rng.choice([round(rng.uniform(-1, 1), 3), 2, -1]) for _ in range(n))
        if n == 1:
            f = {1: lambda x, u: g((x,), u, 0.3), 2: lambda x, y, u: g((x, y), u, 0.3), 3: lambda x, y, z, u: g((x, y, z), u, 0.3)}[dim]
        elif n == 2:
            f = {1: lambda x, u, w: g((x,), u, w), 2: lambda x, y, u, w: g((x, y), u, w), 3: lambda x, y, z, u, w: g((x, y, z), u, w)}[dim]
        else:
            f = {1: lambda x, u, w, k: g((x,), u, w) * k, 2: lambda x, y, u, w, k: g((x, y), u, w) * k, 3: lambda x, y, z, u, w, k: g((x, y, z), u, w) * k}[dim]
        return form, (f, args), lambda x: f(*x, *args)
    f = {1: lambda x: g((x,), b, c), 2: lambda x, y: g((x, y), b, c), 3: lambda x, y, z: g((x, y, z), b, c)}[dim]
    return form, f, lambda x: f(*x)


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    for attempt in range(10):
        spec = gen.random_spec(
            rng, dim=rng.choice([1, 2, 2, 3]), stencil_kind=rng.choice(["classic", "perm", "sym"] + (["asym"] if kind != "walls" else [])),
            maxn=9, sizes=SIZES, sources=kind == "time" or rng.random() < 0.2, allow_M=kind == "moments" and rng.random() < 0.2,
        )
        spec.generator = "cython" if kind == "cython" else "numpy"
        spec.labels, spec.geom, spec.walls = [-1] * (2 * spec.dim), [], {}
        if kind == "walls":
            walls.add_walls(rng, spec, methods=["BounceBack", "AntiBounceBack", "BouzidiBounceBack", "Neumann"])
        ref = Ref(spec)
        if ref.cond < 1e5:
            break
    else:
        return
    if kind == "time" and rng.random() < 0.6:
        # the scheme velocity is a parameter
        la = sp.Symbol(rng.choice(["LA", "lambda", "c_"]))
        spec.params = dict(spec.params)
        spec.params[la] = float(spec.la)
        spec.la_symbol = la
    spec.inittype = "distributions" if kind == "distributions" or (kind == "cython" and case["seed"] % 2) else "moments"
    x = np.meshgrid(*[np.array(c) for c in spec.centers()], indexing="ij")
    init, want, forms = {}, {}, {}
    keys = spec.consm if spec.inittype == "moments" else list(range(spec.nv))
    if spec.inittype == "distributions" and rng.random() < 0.3:
        rng.shuffle(keys)
    for c in keys:
        forms[str(c)], init[c], f = entry(rng, spec.dim, 1.0 if c == spec.dens or spec.inittype == "distributions" else rng.uniform(-0.3, 0.3))
        want[c] = f(x) + np.zeros(spec.N)
    spec.init = init
    if spec.inittype == "moments":
        m = np.zeros((ref.n,) + tuple(spec.N))
        for c, i in ref.cons.items():
            m[i] = want[c]
        with np.errstate(all="ignore"):
            m = ref.equilibrium(m)
        f0 = ref.m2f(m)
    else:
        f0 = np.stack([want[k] for k in range(spec.nv)])
        m = ref.f2m(f0)
    if not pl.stable(ref, m, f0):
        rec.ev("skipped_unstable")
        return
    desc = walls.describe(spec)
    desc["forms"] = forms
    desc["inittype"] = spec.inittype
    rec.sample(desc)
    rec.ev("compiled_backend_cases", kind == "cython")
    rec.ev("distributions", spec.inittype == "distributions")
    lazy = rng.random() < 0.4 or kind == "walls"
    order = rng.sample(range(spec.dim + 1), spec.dim + 1) if rng.random() < 0.2 else None
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec), sorder=order)
    if s.failed:
        return
    if not state(sol, spec, ref, f0, m, rec, desc, "new"):
        return
    for fm in set(forms.values()):
        rec.state(spec.dim, spec.generator, spec.inittype, fm, bool(spec.walls), lazy)
    # coordinates
    dom = sol.domain
    vmax = [int(v) for v in dom.stencil.vmax]
    for d in range(spec.dim):
        c = spec.centers()[d]
        ok = np.shape(dom.coords[d]) == (spec.N[d],) and np.allclose(dom.coords[d], c, rtol=0, atol=1e-9 * max(1, abs(c).max()))
        rec.check(ok, "coordinates", "the coordinates along %s are not those of the centers" % "xyz"[d], spec=desc)
        h = spec.xmin[d] + (np.arange(-vmax[d], spec.N[d] + vmax[d]) + 0.5) * spec.dx
        got = dom.coords_halo[d]
        rec.check(np.shape(got) == h.shape and np.allclose(got, h, rtol=0, atol=1e-9 * max(1, abs(h).max())), "coordinates", "the coordinates along %s with the halo are not those of the centers" % "xyz"[d], spec=desc)
        one = getattr(dom, "xyz"[d])
        rec.check(np.shape(one) == (spec.N[d],) and np.allclose(one, c, rtol=0, atol=1e-9 * max(1, abs(c).max())), "coordinates", "domain.%s is not the coordinates of the centers" % "xyz"[d], spec=desc)
        rec.ev("coordinates", 3)
    rec.check(tuple(dom.shape_in) == tuple(spec.N) and tuple(dom.shape_halo) == tuple(n + 2 * v for n, v in zip(spec.N, vmax)) and dom.dx == spec.dx, "coordinates", "shapes %s, %s, space step %s" % (dom.shape_in, dom.shape_halo, dom.dx), spec=desc)
    # time
    dt = spec.dx / float(spec.la)
    rec.check(sol.t == 0 and sol.nt == 0 and abs(sol.dt - dt) <= 1e-12 * dt, "time", "a new simulation has t = %s, nt = %s, dt = %s instead of %s" % (sol.t, sol.nt, sol.dt, dt), spec=desc)
    with Sut(rec, "steps") as s:
        for k in range(rng.choice([1, 3, 7])):
            sol.one_time_step()
            rec.ev("times")
            rec.check(sol.nt == k + 1 and abs(sol.t - (k + 1) * dt) <= 1e-9 * dt * (k + 1), "time", "after %d steps of %s, t = %s and nt = %s" % (k + 1, dt, sol.t, sol.nt), spec=desc)
    F = pl.get_F(sol, spec)
    n = sol.nt
    if lazy:
        # not initialized: by the first step
        rec.ev("lazy")
        with Sut(rec, "initialize=False") as s:
            sol2 = pl.simulation_of(walls.to_dico(spec), sorder=order, initialize=False)
            rec.check(sol2.t == 0 and sol2.nt == 0, "time", "t = %s with initialize=False" % sol2.t, spec=desc)
            for k in range(n):
                sol2.one_time_step()
            F2 = pl.get_F(sol2, spec)
        if s.failed:
            return
        fin = np.isfinite(F)
        rec.check(np.array_equal(F, F2, equal_nan=True), "lazy", "the simulation created with initialize=False differs after %d steps" % n, spec=desc)
        rec.check(sol2.nt == n and sol2.t == sol.t, "time", "t = %s, nt = %s with initialize=False, %s, %s without" % (sol2.t, sol2.nt, sol.t, sol.nt), spec=desc)
    if rng.random() < 0.5:
        # from the start again
        with Sut(rec, "initialization") as s:
            sol.initialization()
        if not s.failed:
            state(sol, spec, ref, f0, m, rec, desc, "initialization()")


def state(sol, spec, ref, f0, m, rec, desc, what):
    with Sut(rec, "read") as s:
        F = pl.get_F(sol, spec)
        mm = {c: np.array(sol.m[c]) for c in spec.consm}
        allm = np.stack([np.array(sol.m[i]) for i in range(spec.nv)])
    if s.failed:
        return False
    for c, i in ref.cons.items():
        ok, err = close(mm[c], m[i])
        rec.ev("fields_compared")
        if not rec.check(ok, "initial-moment", "%s: the moment %s differs by %.3g from its initial value (%s)" % (what, c, err, desc["forms"].get(str(c))), spec=desc):
            return False
    ok, err = close(F, f0)
    rec.ev("fields_compared", len(F))
    if not rec.check(ok, "initial-distributions", "%s: the distributions differ by %.3g from %s" % (what, err, "the equilibrium of the initial moments" if spec.inittype == "moments" else "the initial values"), spec=desc):
        return False
    # the other moments, whatever their order
    got, want = np.sort(allm.reshape(spec.nv, -1).sum(axis=1)), np.sort(m.reshape(spec.nv, -1).sum(axis=1))
    return rec.check(close(got, want, 1e-8)[0], "initial-moments", "%s: the totals of the moments are %s instead of %s" % (what, got, want), spec=desc)
