"""Walls and obstacles: every boundary condition imposes what it says."""
import numpy as np

import pylbm

from vlib import gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (6, 14), 2: (8, 14), 3: (6, 8)}


def make(case, rng):
    kind = case["kind"]
    dim = 3 if kind == "d3" else rng.choice([1, 2, 2, 2])
    if kind == "uniform":
        kind = rng.choice(["bouzidi", "mixed2"])
    if kind == "bouzidi":
        dim = rng.choice([2, 2, 2, 3])
    spec = gen.random_spec(
        rng,
        dim=dim,
        nschemes=rng.choice([2, 3]) if kind == "coupled" else rng.choice([1, 1, 2] if dim < 3 else [1]),
        stencil_kind=rng.choice(["classic", "perm", "sym"]) if dim < 3 else "perm",
        maxn={1: 5, 2: 9, 3: 7}[dim],
        sizes=SIZES,
        sources=kind == "mixed" and rng.random() < 0.3,
        allow_M=dim < 3 and rng.random() < 0.2,
    )
    if kind == "simple":
        walls.add_walls(rng, spec, methods=["BounceBack", "AntiBounceBack", "Neumann"], elements=0.3, values=0.8, shared=0.5)
    elif kind == "bouzidi":
        walls.add_walls(rng, spec, methods=["BouzidiBounceBack", "BouzidiAntiBounceBack"], elements=1, values=0.6, shared=0.3)
    elif kind == "time":
        # time dependent values given by the same function on several sides
        m = rng.choice(["BounceBack", "AntiBounceBack", "BouzidiAntiBounceBack", "Neumann"])
        walls.add_walls(rng, spec, methods=[m], elements=0.2, values=1, time_bc=0.8, shared=0.8, periodic=0.2)
    elif kind == "neumann":
        walls.add_walls(rng, spec, neumann_axis=1)
    else:
        walls.add_walls(rng, spec, partial=True, shared=0.4, neumann_axis=0.1 if kind == "mixed" else 0)
    spec.generator = "cython" if kind == "cython" else "numpy"
    pl.vary(case, spec)
    return spec


def run(case, rec):
    rng = pl.rng_of(case)
    if case["kind"] == "near":
        return near(rec)
    for attempt in range(8):
        spec = make(case, rng)
        ref = Ref(spec)
        fl = walls.fluid_of(spec)
        if ref.cond > 1e5 or fl.ambiguous.any() or not fl.fluid.any():
            continue
        with Sut(rec, "creation") as s:
            dom = pylbm.Domain(walls.to_dico(spec))
        if s.failed:
            return
        try:
            rw = walls.RefWalls(spec, ref, fl, dom)
            break
        except walls.Degenerate:
            rec.ev("degenerate_geometries")
    else:
        rec.ev("skipped_degenerate")
        return
    if case["kind"] == "uniform":
        return uniform(spec, ref, fl, dom, rw, rng, rec)
    desc = walls.describe(spec)
    rec.sample(desc)
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec), sorder=spec.sorder)
    if s.failed:
        return
    if spec.generator == "cython":
        rec.ev("compiled_backend_cases")
    f = ref.init_f() + 0.03 * pl.random_F(spec, rng, 1.0)
    f[:, ~fl.fluid] = 0.0 if rng.random() < 0.5 else np.nan
    pl.set_F(sol, f)
    t = 0.0
    fluid = fl.fluid
    for k in range(4):
        f = rw.step(f, t)
        t += ref.dt
        dens = ref.f2m(f)
        if not pl.stable(ref, f[:, fluid], dens[:, fluid]):
            rec.ev("skipped_unstable")
            break
        with Sut(rec, "time step") as s:
            sol.one_time_step()
            F = pl.get_F(sol, spec)
        if s.failed:
            return
        rec.ev("steps_compared")
        rec.ev("links", rw.nlinks)
        if k == 0:
            for j, meth, value, c, q, x, c2 in rw.groups:
                for side in set((q < 0.5).tolist()):
                    rec.state(spec.dim, spec.generator, meth, value is not None and (value.time_bc, len(value.args)), side, tuple(ref.V[j]))
                rec.ev("links_" + meth, len(q))
        ok, err = close(F[:, fluid], f[:, fluid])
        if not ok:
            # which condition is concerned, for the report
            bad = np.abs(F - f)
            bad[:, ~fluid] = 0
            bad = np.where(np.isfinite(bad), bad, np.inf)
            worst = set()
            tol = 1e-9 * max(1.0, np.abs(f[:, fluid]).max())
            cells = {tuple(a) for a in np.argwhere(bad.max(axis=0) > tol)}
            for j, meth, value, c, q, x, c2 in rw.groups:
                for a in zip(*c):
                    if tuple(a) in cells:
                        worst.add(meth)
            rec.violate("boundary", "after %d step(s) the distributions differ by %.3g from the boundary conditions described, in %d cell(s) near walls with %s" % (k + 1, err, len(cells), sorted(worst)), spec=desc)
            return
        rec.ev("oracle_evaluations")
        # NaN of the solid cells
        f = np.where(fluid, f, np.nan)


def uniform(spec, ref, fl, dom, rw, rng, rec):
    """A uniform equilibrium is kept by the walls which impose it, whatever the method and the distance."""
    c0 = {c: 1.0 if c == spec.dens else rng.uniform(-0.2, 0.2) for c in spec.consm}
    for q, w in spec.walls.items():
        v = w["value"] = w["value"] or walls.Value(rng, spec, False, 0)
        v.time_bc, v.args = False, ()
        v.coef = {c: (c0[c], [0.0] * spec.dim, 0.0, []) for c in spec.consm}
    for j, meth, value, c, q, x, c2 in rw.groups:
        if meth == "BouzidiAntiBounceBack" and (q < 0.5).any():
            # see near
            for w in spec.walls.values():
                w["methods"] = [n.replace("BouzidiAnti", "Anti") for n in w["methods"]]
            break
    desc = walls.describe(spec)
    m = np.zeros((ref.n,) + tuple(spec.N))
    for c, i in ref.cons.items():
        m[i] = c0[c]
    m = ref.equilibrium(m)
    f = np.einsum("ij,j...->i...", ref.invM, m)
    if not pl.stable(ref, f):
        rec.ev("skipped_unstable")
        return
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec), sorder=spec.sorder)
        pl.set_F(sol, np.where(fl.fluid, f, np.nan))
        for k in range(2):
            sol.one_time_step()
        F = pl.get_F(sol, spec)
    if s.failed:
        return
    rec.ev("uniform_states")
    for meth in {n for w in spec.walls.values() for n in w["methods"]}:
        rec.state("uniform", spec.dim, meth)
    ok, err = close(F[:, fl.fluid], f[:, fl.fluid])
    rec.check(ok, "uniform", "a uniform equilibrium changes by %.3g, with walls which impose its values" % err, spec=desc)


def near(rec):
    """The anti bounce-back condition of Bouzidi with a wall at less than half a cell."""
    import sympy as sp

    X, Y, T = sp.symbols("X,Y,T")
    d = {
        "box": {"x": [0, 8], "y": [0, 8], "label": [-1, -1, 0, 0]},
        "elements": [pylbm.Parallelogram([-5.0, -5.0], [20.0, 0], [0, 7.3], label=1)],
        "space_step": 1.0,
        "scheme_velocity": 1,
        "schemes": [{"velocities": list(range(5)), "conserved_moments": T, "polynomials": [1, X, Y, X**2, Y**2],
                     "relaxation_parameters": [0, 1.2, 1.2, 1.1, 1.1], "equilibrium": [T, 0, 0, T / 4, T / 4]}],
        "init": {T: 1.0},
        "boundary_conditions": {k: {"method": {0: pylbm.bc.BouzidiAntiBounceBack}, "value": one} for k in (0, 1)},
        "generator": "numpy",
    }
    with Sut(rec, "near") as s:
        sol = pylbm.Simulation(d)
        sol.one_time_step()
        m = np.array(sol.m[T])[:, 2:]
    if s.failed:
        return
    rec.check(np.abs(m - 1).max() < 1e-9, "anti-bouzidi-near-wall", "with BouzidiAntiBounceBack and a wall at 0.2 cell, a uniform state equal to the imposed value changes by %.3g" % np.abs(m - 1).max())


def one(f, m, x, y):
    import sympy as sp

    m[sp.Symbol("T")] = 1.0
