"""What is not fluid never influences the fluid: every distribution that enters a fluid cell is set."""
import numpy as np
import sympy as sp

import pylbm
from vlib import gen, geom, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref

SIZES = {1: (4, 12), 2: (6, 13), 3: (5, 7)}


def make(case, rng):
    kind = case["kind"]
    dim = 3 if kind == "d3" else 2 if kind == "aligned" else rng.choice([1, 2, 2, 2] if kind in ("cython", "solid") else [2, 2, 2, 3] if kind == "fluid" else [1, 2, 2, 3])
    spec = gen.random_spec(
        rng,
        dim=dim,
        nschemes=rng.choice([1, 1, 2]) if dim < 3 else 1,
        stencil_kind=rng.choice(["classic", "perm", "sym", "sym"]) if dim < 3 else "perm",
        maxn={1: 5, 2: 13 if rng.random() < 0.3 else 9, 3: 19 if rng.random() < 0.3 and kind == "d3" else 7}[dim],
        sizes=SIZES,
        sources=rng.random() < 0.2,
        allow_M=False,
        scale=0.1,
    )
    if kind == "neumann":
        walls.add_walls(rng, spec, neumann_axis=1)
    elif kind == "aligned":
        walls.add_walls(rng, spec, elements=0, nlab=3, values=0.4)
        # dyadic numbers: what is on a side is on it exactly
        spec.dx = rng.choice([1.0, 1.0, 0.5, 0.25])
        spec.xmin = tuple(rng.choice([0.0, 0.0, -1.0, 0.5]) for _ in range(dim))
        spec.geom = walls.aligned_elements(rng, spec, rng.randint(1, 3), [4, 5, 6])
        for q in {q for e in spec.geom for q in e["label"]}:
            spec.walls[q] = {"methods": [rng.choice(walls.METHODS) for _ in spec.schemes], "value": None}
    else:
        walls.add_walls(rng, spec, elements=0.9 if dim > 1 else 0, nlab=3, values=0.4)
    if kind == "fluid":
        # fluid elements: inside of the solid ones, or anywhere
        more = walls.place_elements(rng, dim, spec.N, spec.dx, spec.xmin, spec.labels, [2] * dim, "multi", [4, 5, 6, 7])
        for e in more:
            e["isfluid"] = rng.random() < 0.6
        spec.geom += more
        for q in {q for e in more for q in e["label"]} - set(spec.walls):
            spec.walls[q] = {"methods": [rng.choice(walls.METHODS) for _ in spec.schemes], "value": None}
    spec.generator = "cython" if kind == "cython" else "numpy"
    pl.vary(case, spec)
    return spec


def narrow(spec, dom, fluid):
    """Labels with a link closer than one half whose next cell is not fluid."""
    bad = set()
    vmax = list(dom.stencil.vmax)
    inner = tuple(slice(v, v + n) for v, n in zip(vmax, spec.N))
    for k, vel in enumerate(dom.stencil.unique_velocities):
        v = np.array([int(c) for c in vel.v])
        dist, flag = dom.distance[k][inner], dom.flag[k][inner]
        for lab in spec.walls:
            for c in np.argwhere((flag == lab) & (dist < 0.5 + 1e-12)):
                n = c - v
                for d in range(spec.dim):
                    if spec.labels[2 * d] == -1:
                        n[d] %= spec.N[d]
                if (n < 0).any() or (n >= np.array(spec.N)).any() or not fluid[tuple(n)]:
                    bad.add(lab)
    return bad


def poison(sol, spec, dom, fluid, value, rng):
    vmax = list(dom.stencil.vmax)
    inner = tuple(slice(v, v + n) for v, n in zip(vmax, spec.N))
    full = np.zeros(dom.in_or_out.shape, dtype=bool)
    full[inner] = fluid
    n = 0
    for k in range(spec.nv):
        for name in ("F_halo", "m_halo") if rng is None else ("F_halo",):
            a = getattr(sol, name)[k]
            a[~full] = value if value is not None else np.random.default_rng(k).normal(size=(~full).sum()) * 50
        n += (~full).sum()
    return n


def run(case, rec):
    if case["kind"] == "gap":
        return gap(rec)
    rng = pl.rng_of(case)
    for attempt in range(8):
        spec = make(case, rng)
        if Ref(spec).cond < 1e5:
            break
    else:
        return
    with Sut(rec, "domain") as s:
        dom = pylbm.Domain(walls.to_dico(spec))
    if s.failed:
        return
    vmax = list(dom.stencil.vmax)
    inner = tuple(slice(v, v + n) for v, n in zip(vmax, spec.N))
    fluid = dom.in_or_out[inner] == dom.valin
    fl = walls.fluid_of(spec)
    if case["kind"] == "aligned":
        # the sides of the elements go through the centers of cells
        if not fluid.any():
            return
        rec.ev("aligned_cases")
    elif fl.ambiguous.any() or not fluid.any() or not np.array_equal(fluid, fl.fluid):
        rec.ev("skipped_degenerate")
        return
    for q in narrow(spec, dom, fluid):
        m = spec.walls[q]["methods"]
        spec.walls[q]["methods"] = [n.replace("Bouzidi", "") for n in m]
    desc = walls.describe(spec)
    rec.sample(desc)
    rec.ev("compiled_backend_cases", case["kind"] == "cython")
    ref = Ref(spec)
    f = ref.init_f() + 0.03 * pl.random_F(spec, rng, 1.0)
    traces = []
    for value in (0.0, rng.choice([np.nan, np.nan, None])):
        with Sut(rec, "simulation") as s:
            if value == 0.0 or case["kind"] != "cython":
                sol = pl.simulation_of(walls.to_dico(spec), sorder=spec.sorder)
            for k in range(spec.nv):
                sol.F[k][...] = f[k]
            out = []
            for k in range(3):
                n = poison(sol, spec, dom, fluid, value, rng)
                sol.one_time_step()
                out.append((pl.get_F(sol, spec)[:, fluid], [np.array(sol.m[i])[fluid] for i in range(spec.nv)]))
                rec.ev("cells_poisoned", n)
            traces.append(out)
        if s.failed:
            return
        if spec.generator == "cython":
            sol.t, sol.nt = 0.0, 0
    for k in range(3):
        a, b = traces[0][k], traces[1][k]
        if not np.all(np.isfinite(a[0])) or np.abs(a[0]).max() > 1e6:
            rec.ev("skipped_unstable")
            break
        rec.ev("steps_compared")
        rec.ev("fluid_cells", fluid.sum())
        rec.state(spec.dim, spec.generator, sorted({m for w in spec.walls.values() for m in w["methods"]}), sorted((e["kind"], e["isfluid"]) for e in spec.geom), k)
        for x, y in ((a[0], b[0]), (np.array(a[1]), np.array(b[1]))):
            bad = ~(np.abs(x - y) <= 1e-12 * max(1, np.abs(x).max()))
            if not rec.check(not bad.any(), "leak", "step %d: %d values of the fluid cells depend on what is in the solid or outer cells" % (k + 1, bad.sum()), spec=desc, values=[x[bad][:3].tolist(), y[bad][:3].tolist()]):
                return


def gap(rec):
    """A channel of one cell between two obstacles, at less than half a cell of its center."""
    X, Y, rho = sp.symbols("X,Y,rho")
    out = []
    for value in (0.0, np.nan):
        d = {
            "box": {"x": [0, 8], "y": [0, 9], "label": [-1, -1, 0, 0]},
            "elements": [
                pylbm.Parallelogram([-5.0, 0.5], [20.0, 0], [0, 3.7], label=1),
                pylbm.Parallelogram([-5.0, 4.8], [20.0, 0], [0, 3.7], label=1),
            ],
            "space_step": 1.0,
            "scheme_velocity": 1,
            "schemes": [{"velocities": list(range(5)), "conserved_moments": rho, "polynomials": [1, X, Y, X**2, Y**2],
                         "relaxation_parameters": [0, 1.2, 1.2, 1.1, 1.1], "equilibrium": [rho, 0, 0, rho / 4, rho / 4]}],
            "init": {rho: 1.0},
            "boundary_conditions": {0: {"method": {0: pylbm.bc.BounceBack}}, 1: {"method": {0: pylbm.bc.BouzidiBounceBack}}},
            "generator": "numpy",
        }
        with Sut(rec, "gap") as s:
            sol = pylbm.Simulation(d)
            fluid = sol.domain.in_or_out[1:-1, 1:-1] == sol.domain.valin
            full = np.zeros(sol.domain.in_or_out.shape, dtype=bool)
            full[1:-1, 1:-1] = fluid
            for k in range(5):
                sol.F_halo[k][~full] = value
            sol.one_time_step()
            out.append(np.array([sol.F[k][fluid] for k in range(5)]))
        if s.failed:
            return
    rec.ev("gaps")
    rec.check(np.array_equal(out[0], out[1]), "bouzidi-one-cell-gap", "a Bouzidi condition in a gap of one cell reads the content of the solid cells")
