"""The result does not depend on the way the time step is executed."""
import itertools

import numpy as np

import pylbm
from vlib import gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (8, 14), 2: (6, 10), 3: (5, 7)}


def make(case, rng):
    j = case["j"]
    cy = case["kind"] == "cython"
    dim = [2, 2, 1, 3][j % 4] if cy else rng.choice([1, 2, 2, 2, 3])
    if case["kind"] == "order":
        return ordered(rng)
    rel = j % 6 == 5 and dim < 3
    spec = gen.random_spec(
        rng,
        dim=dim,
        nschemes=rng.choice([1, 1, 2]) if dim < 3 else 1,
        stencil_kind=rng.choice(["classic", "perm", "sym"]) if dim < 3 and not rel else "perm",
        maxn={1: 5, 2: 5 if rel else 9, 3: 7}[dim],
        sizes=SIZES,
        sources=rng.random() < 0.35,
        relvel=rel or None,
        mass=rel,
        simple=rel,
        params=not rel,
        allow_M=not rel and dim < 3,
    )
    spec.generator = "numpy"
    spec.labels, spec.geom, spec.walls = [-1] * (2 * dim), [], {}
    if not rel and rng.random() < 0.6:
        walls.add_walls(rng, spec, elements=0.6, shared=0.3)
    return spec


def ordered(rng):
    """Walls and obstacles with all the kinds of conditions, numpy: all the orders of the storage."""
    dim = rng.choice([2, 2, 3])
    spec = gen.random_spec(
        rng, dim=dim, nschemes=rng.choice([1, 2]) if dim == 2 else 1, stencil_kind="sym", maxn={2: 9, 3: 7}[dim],
        sizes={2: (7, 12), 3: (5, 7)}, sources=False, allow_M=False,
    )
    spec.labels, spec.geom, spec.walls = [-1] * (2 * dim), [], {}
    walls.add_walls(rng, spec, elements=0.9, nlab=4, periodic=0.1)
    spec.generator = "numpy"
    return spec


def variant(rng, dim, cy, obstacles):
    """(generator, sorder, algorithm, settings)"""
    order = None
    if rng.random() < 0.75:
        order = list(rng.choice(list(itertools.permutations(range(dim + 1)))))
    algo = rng.choice([None, None, "BaseAlgorithm", "PullAlgorithm"])
    st = {}
    if rng.random() < 0.5:
        st["split"] = True
        st["m_local"] = False
    elif cy:
        st["m_local"] = rng.random() < 0.5
    return ("cython" if cy else "numpy", order, algo, st or None)


def run(case, rec):
    rng = pl.rng_of(case)
    cy = case["kind"] == "cython"
    for attempt in range(6):
        spec = make(case, rng)
        ref = Ref(spec)
        fl = walls.fluid_of(spec)
        if ref.cond > 1e5 or fl.ambiguous.any() or not fl.fluid.any():
            continue
        if spec.walls:
            with Sut(rec, "domain") as s:
                dom = pylbm.Domain(walls.to_dico(spec))
            if s.failed:
                return
            try:
                walls.RefWalls(spec, ref, fl, dom)
            except walls.Degenerate:
                continue
        break
    else:
        rec.ev("skipped_degenerate")
        return
    desc = walls.describe(spec)
    rec.sample(desc)
    fluid = fl.fluid
    f0 = ref.init_f() + 0.03 * pl.random_F(spec, rng, 1.0)
    perturb = rng.random() < 0.6
    nt = 3

    def trace(generator, order, algo, settings):
        spec.algo = getattr(pylbm.algorithm, algo) if algo else None
        spec.settings = settings
        sol = pl.simulation_of(walls.to_dico(spec, generator), sorder=order)
        if perturb:
            pl.set_F(sol, f0)
        out = []
        for k in range(nt):
            sol.one_time_step()
            out.append((pl.get_F(sol, spec)[:, fluid], [np.array(sol.m[c])[fluid] for c in spec.consm], np.stack([np.array(sol.m[i])[fluid] for i in range(spec.nv)])))
        return out, (sol.t, sol.nt)

    with Sut(rec, "default settings on numpy") as s:
        base, tb = trace("numpy", None, None, None)
    if s.failed:
        return
    ok = 0
    while ok < nt and pl.stable(ref, base[ok][0], base[ok][2]):
        ok += 1
    orders = []
    if case["kind"] == "order":
        orders = [list(p) for p in itertools.permutations(range(spec.dim + 1))]
        orders = rng.sample([p for p in orders if p[0] == 0], 2) + rng.sample([p for p in orders if p[0] != 0], 3)
    for i in range(len(orders) or (1 if cy else 3)):
        var = ("numpy", orders[i], None, None) if orders else variant(rng, spec.dim, cy, bool(spec.geom))
        with Sut(rec, "settings %s" % (var,)) as s:
            got, tg = trace(*var)
        if s.failed:
            return
        rec.ev("runs_compared")
        rec.ev("compiled_runs", cy)
        rec.state(spec.dim, bool(spec.walls), bool(spec.rel_vel), var)
        rec.check(tg == tb, "time", "t and nt are %s instead of %s" % (tg, tb), spec=desc)
        for k in range(ok):
            rec.ev("steps_compared")
            for what, a, b in (("distributions", got[k][0], base[k][0]), ("moments", got[k][2], base[k][2])):
                same, err = close(a, b)
                if not rec.check(same, "settings", "after %d step(s), the %s differ by %.3g between the default settings and generator, sorder, algorithm, settings = %s" % (k + 1, what, err, var), spec=desc):
                    return
            for c, a, b in zip(spec.consm, got[k][1], base[k][1]):
                same, err = close(a, b)
                if not rec.check(same, "settings-conserved", "after %d step(s), the moment %s differs by %.3g with %s" % (k + 1, c, err, var), spec=desc):
                    return
