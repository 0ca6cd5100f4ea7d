"""Runs of a simulation and of an equivalent one, compared cell by cell."""
import copy

import numpy as np
import sympy as sp

import pylbm

from . import gen, pl, walls
from .gen import XYZ, velocity
from .lbm_oracle import Ref, close


def number_of(dim, v, cache={}):
    """The number of a velocity, by its components."""
    if dim not in cache:
        cache[dim] = {velocity(dim, k): k for k in range({1: 40, 2: 300, 3: 400}[dim])}
    return cache[dim][tuple(int(c) for c in v)]


def clone(spec):
    s = copy.copy(spec)
    s.schemes = [copy.copy(x) for x in spec.schemes]
    for x in s.schemes:
        for a in ("nums", "P", "eq", "s", "cons"):
            setattr(x, a, list(getattr(x, a)))
        x.cons_idx, x.source = dict(x.cons_idx), dict(x.source)
    s.params, s.init = dict(spec.params), dict(spec.init)
    s.walls = {q: dict(w, methods=list(w["methods"])) for q, w in getattr(spec, "walls", {}).items()}
    s.geom = [dict(e) for e in getattr(spec, "geom", [])]
    return s


class Moved:
    """An imposed value seen in other coordinates."""

    def __init__(self, base, back):
        self.base, self.back = base, back
        self.time_bc, self.args, self.coef = base.time_bc, base.args, base.coef

    def at(self, c, t, x, args):
        return self.base.at(c, t, self.back(x), args)

    entry = walls.Value.entry


def moved_function(f, dim, back):
    if isinstance(f, tuple):
        g, args = f
        return moved_function(lambda *x: g(*x, *args), dim, back)
    if not callable(f):
        return f
    if dim == 1:
        return lambda x: f(*back([x]))
    if dim == 2:
        return lambda x, y: f(*back([x, y]))
    return lambda x, y, z: f(*back([x, y, z]))


def change_coordinates(spec, back):
    """The functions of the coordinates seen in the new ones; back: new to old."""
    spec.init = {c: moved_function(f, spec.dim, back) for c, f in spec.init.items()}
    for w in spec.walls.values():
        if w["value"] is not None:
            w["value"] = Moved(w["value"], back)


def move_elements(spec, A, b):
    """x -> A x + b for the elements."""
    for e in spec.geom:
        for k in ("center", "point"):
            if k in e:
                e[k] = (A @ np.array(e[k]) + b).tolist()
        for k in ("v1", "v2", "v3", "w"):
            if k in e:
                e[k] = (A @ np.array(e[k])).tolist()


def run(spec, steps, sorder=None, time=False):
    """The state after each step: {scheme, velocity: array}, {moment: array}, fluid cells."""
    sol = pl.simulation_of(walls.to_dico(spec) if hasattr(spec, "walls") else spec.to_dico(), sorder=sorder)
    ref = [(k, velocity(spec.dim, q)) for k, s in enumerate(spec.schemes) for q in s.nums]
    vm = list(sol.domain.stencil.vmax)
    fluid = (sol.domain.in_or_out == sol.domain.valin)[tuple(slice(v, v + n) for v, n in zip(vm, spec.N))]
    out = []
    for k in range(steps + 1):
        if k:
            sol.one_time_step()
        F = pl.get_F(sol, spec)
        out.append(({r: F[i] for i, r in enumerate(ref)}, {c: np.array(sol.m[c]) for c in spec.consm}))
    return out, fluid, sol


def with_sides(rng, spec, **kw):
    walls.add_walls(rng, spec, **kw)
    fl = walls.fluid_of(spec)
    return bool(fl.fluid.any()) and not fl.ambiguous.any()


def no_walls(spec):
    spec.labels, spec.geom, spec.walls = [-1] * (2 * spec.dim), [], {}
    return spec


def symmetric_stencils(spec):
    return all(set(tuple(-c for c in velocity(spec.dim, q)) for q in s.nums) == set(velocity(spec.dim, q) for q in s.nums) for s in spec.schemes)


def degenerate(spec):
    """Bouzidi conditions in gaps of one cell: see C08."""
    if not spec.walls:
        return False
    try:
        walls.RefWalls(spec, Ref(spec), walls.fluid_of(spec), pylbm.Domain(walls.to_dico(spec)))
        return False
    except walls.Degenerate:
        return True


def ties(spec):
    """Some link meets a corner: the face which counts is a convention."""
    fl = walls.fluid_of(spec)
    V = {velocity(spec.dim, q) for s in spec.schemes for q in s.nums}
    for c in np.argwhere(fl.fluid):
        for v in V:
            if any(v):
                r = fl.link(tuple(int(i) for i in c), tuple(-i for i in v))
                if r[0] == "ambiguous" or (r[0] == "wall" and isinstance(r[2], tuple)):
                    return True
                if r[0] == "wall" and r[1] < 1e-6:
                    return True
    return False


def compare(rec, a, b, fluid, pair_f, pair_m, back, mech, msg, **desc):
    """a: the first run, b: the other one; back(array of b) is in the cells of a."""
    n = 0
    for k, ((Fa, ma), (Fb, mb)) in enumerate(zip(a, b)):
        A = np.stack([Fa[r] for r in Fa] + [ma[c] for c in ma])
        B = np.stack([back(Fb[pair_f(r)]) for r in Fa] + [back(mb[pair_m(c)]) for c in ma])
        A, B = A[:, fluid], B[:, fluid]
        if not np.all(np.isfinite(A)) or np.abs(A).max() > 1e4:
            rec.ev("skipped_unstable")
            break
        ok, err = close(A, B)
        rec.ev("steps_compared")
        rec.ev("values_compared", A.size)
        n += 1
        if not rec.check(ok, mech, "%s: the states differ by %.3g after %d step(s)" % (msg, err, k), **desc):
            break
    return n
