"""Simulations with walls: random boundary conditions and the reference for them.

Nothing of pylbm is used, except the classes and the elements put in the dictionary.
"""
import copy
import types

import numpy as np

from . import geom
from .gen import velocity

METHODS = ["BounceBack", "AntiBounceBack", "BouzidiBounceBack", "BouzidiAntiBounceBack", "Neumann"]


class Value:
    """Imposed value: every conserved moment is affine in the coordinates and the time."""

    def __init__(self, rng, spec, time_bc, nargs, only=None, amp=0.1):
        self.time_bc = time_bc
        self.args = tuple(round(rng.uniform(-0.5, 0.5), 3) for _ in range(nargs))
        self.coef = {}
        L = max(n * spec.dx for n in spec.N)
        for c in spec.consm:
            if only is not None and c not in only:
                continue
            mean = 1.0 if spec.dens == c else rng.uniform(-0.2, 0.2)
            self.coef[c] = (
                mean,
                [rng.uniform(-amp, amp) / L for _ in range(spec.dim)],
                rng.uniform(-amp, amp) if time_bc else 0.0,
                [rng.uniform(-amp, amp) for _ in range(nargs)],
            )

    def at(self, c, t, x, args):
        if c not in self.coef:
            return 0.0 * x[0]
        a, b, ct, e = self.coef[c]
        r = a + sum(bi * xi for bi, xi in zip(b, x)) + ct * t
        for i, (k, q) in enumerate(zip(e, args)):
            r = r + k * q * (1 + i)
        return r

    def entry(self, dim, funcs=None):
        """What the dictionary of pylbm takes: the same function for the labels which share it."""
        me = self
        key = (type(self), id(self.coef), self.time_bc)
        if funcs is not None and key in funcs:
            return (funcs[key], self.args) if self.args else funcs[key]

        def fill(m, t, x, args):
            for c in me.coef:
                m[c] = me.at(c, t, x, args)

        if self.time_bc:

            def func(f, m, t, *a):
                fill(m, t, a[:dim], a[dim:])

        else:

            def func(f, m, *a):
                fill(m, 0.0, a[:dim], a[dim:])

        assert isinstance(func, types.FunctionType)
        if funcs is not None:
            funcs[key] = func
        return (func, self.args) if self.args else func


def place_elements(rng, dim, N, dx, xmin, labels, vmax, what, labs, nmax=3):
    """Random elements which stay away from the periodic sides."""
    elements = []
    lo, L = np.array(xmin), np.array(N) * dx

    def fits(e):
        p = np.stack(np.meshgrid(*[xmin[d] + (np.arange(-4, N[d] + 4) + 0.5) * dx for d in range(dim)], indexing="ij"), axis=-1)
        lev = geom.shape(e).level(p) <= 0
        if not lev.any():
            return False
        for d in range(dim):
            idx = np.where(lev)[d] - 4
            if labels[2 * d] == -1 and (idx.min() < 1 + vmax[d] or idx.max() >= N[d] - 1 - vmax[d]):
                return False
        return True

    cell = dx * min(N)
    for _ in range(1 if what == "solid" else rng.randint(2, nmax)):
        for _ in range(40):
            c = [rng.uniform(lo[d], lo[d] + L[d]) if labels[2 * d] != -1 else lo[d] + L[d] * rng.uniform(0.35, 0.65) for d in range(dim)]
            e = geom.random_element(rng, dim, c, rng.uniform(1.6 * dx, 0.22 * cell + dx), labs)
            if fits(e):
                elements.append(e)
                break
    return elements


def aligned_elements(rng, spec, n, labs):
    """Solid elements of the plane whose corners are at multiples of half a cell: centers, sides and corners of cells."""
    dx = spec.dx
    reach = [2 * max(abs(velocity(2, q)[d]) for s in spec.schemes for q in s.nums) + 1 for d in range(2)]
    elements = []
    for _ in range(n):
        ext, lo = [], []
        for d in range(2):
            last = 2 * spec.N[d] - (reach[d] if spec.labels[2 * d] == -1 else 0)
            first = reach[d] if spec.labels[2 * d] == -1 else 0
            a = rng.randint(1, max(1, min(5, last - first)))  # in halves of a cell
            b = rng.randint(min(first, last - a), last - a) if spec.labels[2 * d] == -1 else rng.randint(-1, last - a + 1)
            ext.append(a)
            lo.append(spec.xmin[d] + 0.5 * b * dx)
        axes = [[0.5 * dx * ext[d] if i == d else 0.0 for i in range(2)] for d in range(2)]
        lab = rng.choice(labs)
        k = rng.choice(["Parallelogram", "Parallelogram", "Triangle", "Circle"])
        e = {"kind": k, "label": [lab] * geom.NLAB[k], "isfluid": False, "aslist": False}
        if k == "Circle":
            r = max(1, min(ext) // 2)
            if spec.labels[0] == -1 or spec.labels[2] == -1:
                if min(ext) < 2:
                    continue
            e.update(center=[q + 0.5 * dx * r for q in lo], radius=0.5 * dx * r)
        else:
            e.update(point=lo, v1=axes[0], v2=axes[1])
        elements.append(e)
    return elements


def add_walls(rng, spec, methods=METHODS, elements=0.6, values=0.6, time_bc=0.4, same=False, periodic=0.3, neumann_axis=0.0, partial=False, nlab=4, shared=0.0):
    """Turn a periodic Spec into one with walls and obstacles."""
    dim = spec.dim
    vmax = [max(abs(velocity(dim, q)[d]) for s in spec.schemes for q in s.nums) for d in range(dim)]
    spec.dens = spec.schemes[0].cons_idx and min(spec.schemes[0].cons_idx, key=lambda c: spec.schemes[0].cons_idx[c])
    while True:
        labels = []
        for d in range(dim):
            if rng.random() < periodic:
                labels += [-1, -1]
            else:
                labels += [rng.randint(0, nlab - 1), rng.randint(0, nlab - 1)]
        if rng.random() < 0.3:
            labels = [0 if q != -1 else -1 for q in labels]
        if any(q != -1 for q in labels) or (dim > 1 and elements == 1):
            break
    spec.geom = []
    if dim > 1 and rng.random() < elements:
        spec.geom = place_elements(rng, dim, spec.N, spec.dx, spec.xmin, labels, vmax, rng.choice(["solid", "solid", "multi"]), [4, 5, 6, 0 if 0 in labels else 7])
    spec.label = labels[0] if len(set(labels)) == 1 else list(labels)
    spec.labels = labels
    used = sorted({q for q in labels if q != -1} | {q for e in spec.geom for q in e["label"]})
    spec.walls = {}
    for q in used:
        meth = [rng.choice(methods) for _ in spec.schemes]
        if same:
            meth = [meth[0]] * len(meth)
        v = None
        if rng.random() < values:
            only = None
            if partial and rng.random() < 0.3:
                only = [c for c in spec.consm if c == spec.dens or rng.random() < 0.6]
            v = Value(rng, spec, rng.random() < time_bc, rng.choice([0, 0, 1, 2]), only)
            before = [w["value"] for w in spec.walls.values() if w["value"] is not None]
            if shared and before and rng.random() < shared:
                # the function of another label, maybe with other arguments
                v = copy.copy(rng.choice(before))
                if v.args and rng.random() < 0.5:
                    v.args = tuple(round(rng.uniform(-0.5, 0.5), 3) for _ in v.args)
        spec.walls[q] = {"methods": meth, "value": v}
    if neumann_axis and rng.random() < neumann_axis:
        # NeumannX, Y or Z on two sides, everything else being periodic
        d = rng.randrange(dim)
        spec.labels = labels = [-1] * (2 * dim)
        labels[2 * d] = 0
        labels[2 * d + 1] = rng.choice([0, 1])
        spec.geom = []
        spec.label = list(labels)
        spec.walls = {q: {"methods": [rng.choice(["Neumann" + "XYZ"[d], "Neumann" + "XYZ"[d], "BounceBack"]) for _ in spec.schemes], "value": None} for q in sorted({labels[2 * d], labels[2 * d + 1]})}
    if rng.random() < 0.15:
        rename(rng, spec)
    return spec


RARE = [999, -999, 1000, -5, 100000, -3, 12345]


def rename(rng, spec):
    """Other labels: any integer but those of the periodicity (-1) and of the parallel interfaces (-2)."""
    names = dict(zip(sorted(spec.walls), rng.sample(RARE, 3) + list(range(20, 40))))
    new = lambda lab: [names.get(q, q) for q in lab]
    spec.labels = new(spec.labels)
    spec.label = new(spec.label) if isinstance(spec.label, list) else names.get(spec.label, spec.label)
    for e in spec.geom:
        e["label"] = new(e["label"])
    spec.walls = {names[q]: w for q, w in spec.walls.items()}


def to_dico(spec, generator=None):
    import pylbm

    spec.elements = [geom.build(e) for e in spec.geom]
    spec.bc = {}
    funcs = {}
    for q, w in spec.walls.items():
        b = {"method": {k: getattr(pylbm.bc, w["methods"][k]) for k in w.get("order", range(len(w["methods"])))}}
        if w["value"] is not None:
            b["value"] = w["value"].entry(spec.dim, funcs)
            if w["value"].time_bc:
                b["time_bc"] = True
        spec.bc[q] = b
    return spec.to_dico(generator)


def describe(spec):
    d = spec.describe()
    d["elements"] = spec.geom
    d["labels"] = spec.labels
    d["walls"] = {q: [w["methods"], None if w["value"] is None else {"time": w["value"].time_bc, "args": w["value"].args, "coef": {str(c): v for c, v in w["value"].coef.items()}}] for q, w in spec.walls.items()}
    return d


def fluid_of(spec):
    return geom.Fluid(spec.dim, spec.N, spec.dx, spec.xmin, spec.labels, spec.geom)


class Degenerate(Exception):
    pass


class RefWalls:
    """Time steps with walls; `ref` is the lbm_oracle.Ref of the scheme. The link tables come from the
    geometry; at a corner (a tie), where the face is a convention, from the domain of pylbm."""

    def __init__(self, spec, ref, fl, domain):
        self.spec, self.ref, self.fl = spec, ref, fl
        dim = spec.dim
        nvmax = list(domain.stencil.vmax)
        inner = tuple(slice(v, v + n) for v, n in zip(nvmax, spec.N))
        tab = {}
        for k, vel in enumerate(domain.stencil.unique_velocities):
            tab[tuple(int(c) for c in vel.v)] = (domain.distance[k][inner], domain.flag[k][inner])
        self.src = [[] for _ in range(ref.n)]  # per velocity: arrays of (target, source)
        self.wall = {}  # (velocity, label) -> [(cell, distance)]
        self.nlinks = 0
        cells = [tuple(int(i) for i in c) for c in np.argwhere(fl.fluid)]
        cache = {}
        for j in range(ref.n):
            v = tuple(int(-c) for c in ref.V[j])
            if v not in cache:
                cache[v] = [(c, fl.link(c, v) if any(v) else ("fluid", c)) for c in cells]
            for c, r in cache[v]:
                if r[0] in ("fluid", "periodic"):
                    self.src[j].append((c, r[1]))
                    continue
                if r[0] == "ambiguous" or isinstance(r[2], tuple):
                    dd, ff = tab[v]
                    t, lab = float(dd[c]), int(ff[c])
                    if lab not in spec.walls or not 0 < t <= 1:
                        raise Degenerate
                else:
                    t, lab = r[1], r[2]
                self.wall.setdefault((j, lab), []).append((c, t))
                self.nlinks += 1
        self.src = [(tuple(np.array([a for a, _ in s]).reshape(-1, dim).T), tuple(np.array([b for _, b in s]).reshape(-1, dim).T)) for s in self.src]
        self.sym = []
        for k in range(len(ref.ptr) - 1):
            vs = [tuple(v) for v in ref.V[ref.ptr[k] : ref.ptr[k + 1]]]
            self.sym += [ref.ptr[k] + vs.index(tuple(-c for c in v)) for v in vs]
        self.groups = []
        for (j, lab), lst in self.wall.items():
            k = next(i for i in range(len(ref.ptr) - 1) if ref.ptr[i] <= j < ref.ptr[i + 1])
            w = spec.walls[lab]
            c = np.array([a for a, _ in lst])
            q = np.array([b for _, b in lst])
            # the point of the wall
            x = [fl.p[tuple(c.T)][:, d] - q * ref.V[j][d] * spec.dx for d in range(dim)]
            meth = w["methods"][k]
            c2 = None
            if meth.startswith("Bouzidi"):
                # the other point: one step further from the wall
                nxt = c + np.array(ref.V[j])
                for d in range(dim):
                    if spec.labels[2 * d] == -1:
                        nxt[:, d] %= spec.N[d]
                near = q < 0.5
                for i in np.where(near)[0]:
                    p = tuple(nxt[i])
                    if any(p[d] < 0 or p[d] >= spec.N[d] for d in range(dim)) or not fl.fluid[p]:
                        raise Degenerate
                c2 = np.where(near[:, None], nxt, c)
            if meth[-1] in "XYZ" and meth.startswith("Neumann"):
                d = "XYZ".index(meth[-1])
                c2 = c - np.array(ref.V[j])
                c2[:, d] = c[:, d]
                for e in range(dim):
                    if spec.labels[2 * e] == -1:
                        c2[:, e] %= spec.N[e]
                if (c2 < 0).any() or (c2 >= np.array(spec.N)).any() or not fl.fluid[tuple(c2.T)].all():
                    raise Degenerate
                c2 = tuple(c2.T)
            elif c2 is not None:
                c2 = tuple(c2.T)
            self.groups.append((j, meth, w["value"], tuple(c.T), q, x, c2))

    def feq(self, value, t, x):
        ref = self.ref
        m = np.zeros((ref.n,) + x[0].shape)
        if value is None:
            return np.zeros_like(m)
        for c, i in ref.cons.items():
            m[i] = value.at(c, t, x, value.args)
        return ref.m2f(ref.equilibrium(m))

    def stream(self, f, t):
        g = np.full(f.shape, np.nan)
        for j in range(self.ref.n):
            a, b = self.src[j]
            g[j][a] = f[j][b]
        for j, meth, value, c, q, x, c2 in self.groups:
            s = self.sym[j]
            if meth == "Neumann":
                g[j][c] = f[j][c]
                continue
            if meth[:-1] == "Neumann":
                g[j][c] = f[j][c2]
                continue
            fe = self.feq(value, t if value is not None and value.time_bc else 0.0, x)
            anti = "Anti" in meth
            add = fe[j] + fe[s] if anti else fe[j] - fe[s]
            sg = -1.0 if anti else 1.0
            if meth in ("BounceBack", "AntiBounceBack"):
                g[j][c] = sg * f[s][c] + add
            else:
                near = q < 0.5
                # the sign of the second value with Anti is that of pylbm: see the case uniform of C07
                g1 = sg * 2 * q * f[s][c] + (1 - 2 * q) * f[s][c2] + add
                b = 0.5 / q
                g2 = b * (sg * f[s][c] + add) + (1 - b) * f[j][c]
                g[j][c] = np.where(near, g1, g2)
        return g

    def step(self, f, t):
        """NaN in the solid cells."""
        with np.errstate(all="ignore"):
            return self.ref.collide(self.stream(f, t), t)
