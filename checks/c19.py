"""The same simulation in other coordinates."""
import numpy as np
import sympy as sp

from vlib import equiv, gen, pl, walls
from vlib.core import Sut
from vlib.gen import XYZ, velocity
from vlib.lbm_oracle import Ref

STEPS = 3


def symmetry(case, rng, spec):
    """x'_{p(d)} = g_d x_d about the middle of the box."""
    dim = spec.dim
    while True:
        p = rng.sample(range(dim), dim)
        g = [rng.choice([1, -1]) for _ in range(dim)]
        if p != list(range(dim)) or any(q < 0 for q in g):
            break
    s = equiv.clone(spec)
    A = np.zeros((dim, dim))
    for d in range(dim):
        A[p[d], d] = g[d]
    s.N = tuple(spec.N[p.index(e)] for e in range(dim))
    s.xmin = tuple(rng.choice([0.0, 0.5, -1.0]) for _ in range(dim))
    L = np.array(spec.N) * spec.dx
    mid = np.array(spec.xmin) + L / 2
    mid2 = np.array(s.xmin) + np.array(s.N) * s.dx / 2
    b = mid2 - A @ mid
    # x = A^T (x' - b)
    back = lambda x: [g[d] * (x[p[d]] - b[p[d]]) for d in range(dim)]
    vel = lambda v: tuple(int(c) for c in A @ np.array(v))
    for x in s.schemes:
        x.nums = [equiv.number_of(dim, vel(velocity(dim, q))) for q in x.nums]
        sub = {XYZ[d]: g[d] * XYZ[p[d]] for d in range(dim)}
        x.P = [sp.sympify(q).subs(sub, simultaneous=True) for q in x.P]
    if s.rel_vel is not None:
        u = list(spec.rel_vel)
        s.rel_vel = [g[p.index(e)] * u[p.index(e)] for e in range(dim)]
    lab = [None] * (2 * dim)
    for d in range(dim):
        for side in (0, 1):
            lab[2 * p[d] + (side if g[d] > 0 else 1 - side)] = spec.labels[2 * d + side]
    s.labels = lab
    s.label = lab[0] if len(set(lab)) == 1 else lab
    for w in s.walls.values():
        w["methods"] = [m if m[-1] not in "XYZ" or not m.startswith("Neumann") else "Neumann" + "XYZ"[p["XYZ".index(m[-1])]] for m in w["methods"]]
    equiv.change_coordinates(s, back)
    equiv.move_elements(s, A, b)

    def cells(a):
        # index d of the old array is the index p[d] of the new one
        r = a.transpose(p)
        return r[tuple(slice(None, None, q) for q in g)]

    return s, lambda r: (r[0], vel(r[1])), cells, "symmetry %s %s" % (p, g)


def shift(case, rng, spec):
    """Translation by whole cells along the periodic directions."""
    per = [spec.labels[2 * d] == -1 for d in range(spec.dim)]
    k = [rng.randint(0, n - 1) if q else 0 for n, q in zip(spec.N, per)]
    if not any(k):
        return None
    # the functions are periodic, the imposed values constant along these directions
    for w in spec.walls.values():
        if w["value"] is not None:
            for c, (m, sl, ct, e) in w["value"].coef.items():
                w["value"].coef[c] = (m, [0.0 if per[d] else q for d, q in enumerate(sl)], ct, e)
    s = equiv.clone(spec)
    def back(x):
        r = []
        for d in range(spec.dim):
            if k[d]:
                L = spec.N[d] * spec.dx
                r.append(spec.xmin[d] + np.mod(x[d] - spec.xmin[d] - k[d] * spec.dx, L))
            else:
                r.append(x[d])
        return r

    keep = s.walls
    s.walls = {}
    equiv.change_coordinates(s, back)
    s.walls = keep
    return s, lambda r: r, lambda a: np.roll(a, [-q for q in k], tuple(range(spec.dim))), "translation by %s cells" % k


def move(case, rng, spec):
    """The box and all what it contains elsewhere, in another unit of length."""
    s = equiv.clone(spec)
    c = rng.choice([1.0, 1.0, 2.0, 0.5, 0.1, 3.7, 1e-3, 1e3])
    if case["kind"] == "unit":
        c = rng.choice([2.0**-12, 1e-3, 1e-4, 1e-5, 1e3, 1e4])
    o = [round(rng.uniform(-3, 3), 2) * c for _ in range(spec.dim)]
    if any(x.source for x in spec.schemes) or any(w["value"] is not None and w["value"].time_bc for w in spec.walls.values()):
        c = 1.0
    s.dx = spec.dx * c
    s.xmin = tuple(c * x + y for x, y in zip(spec.xmin, o))
    equiv.change_coordinates(s, lambda x: [(x[d] - o[d]) / c for d in range(spec.dim)])
    equiv.move_elements(s, c * np.eye(spec.dim), np.array(o))
    for e in s.geom:
        if "radius" in e:
            e["radius"] *= c
    return s, lambda r: r, lambda a: a, "origin %s and unit %s" % (o, c)


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    for _ in range(30):
        spec = gen.random_spec(
            rng, dim=case["dim"], stencil_kind=rng.choice(["classic", "perm", "sym", "asym"]), maxn=9 if case["gen"] == "numpy" else 6,
            sources=rng.random() < 0.15 and kind != "unit", relvel=rng.random() < 0.1, allow_M=False, scale=0.15, maxv=2, sizes={1: (6, 14), 2: (7, 12), 3: (5, 7)},
        )
        equiv.no_walls(spec)
        ref = Ref(spec)
        if ref.cond > 1e5:
            continue
        if case["walls"]:
            if not equiv.symmetric_stencils(spec):
                continue
            one = rng.random() < 0.75
            if not equiv.with_sides(
                rng, spec, nlab=1 if one else 4, periodic=0.3 if kind in ("symmetry", "move", "unit") else 0.6,
                elements=0.0 if kind == "shift" else 1.0 if kind == "unit" else 0.7, neumann_axis=0.15, time_bc=0.0 if kind == "unit" else 0.4,
            ):
                continue
            if equiv.degenerate(spec) or equiv.ties(spec):
                continue
        break
    else:
        rec.ev("skipped")
        return
    if spec.rel_vel is not None:
        for s in spec.schemes:
            s.s = [0 if i in s.cons_idx.values() else v for i, v in enumerate(s.s)]
    spec.generator = case["gen"]
    t = {"symmetry": symmetry, "shift": shift, "move": move, "unit": move}[kind](case, rng, spec)
    if t is None:
        return
    other, pair, back, name = t
    if equiv.ties(other) or walls.fluid_of(other).ambiguous.any():
        rec.ev("skipped")
        return
    desc = walls.describe(spec)
    desc["change"] = name
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        with np.errstate(all="ignore"):
            a, fluid, _ = equiv.run(spec, STEPS)
            b, fluid2, _ = equiv.run(other, STEPS)
    if s.failed:
        return
    if not rec.check(np.array_equal(fluid, back(fluid2)), "geometry", "the fluid cells do not follow the %s" % name, **desc):
        return
    n = equiv.compare(rec, a, b, fluid, pair, lambda c: c, back, kind, name, **desc)
    if n:
        rec.ev("pairs")
        rec.ev("pairs_" + kind)
        rec.ev("with_walls", bool(spec.walls))
        rec.ev("with_elements", bool(spec.geom))
        rec.state(spec.dim, name if kind == "symmetry" else kind, sorted({m for w in spec.walls.values() for m in w["methods"]}), [e["kind"] for e in spec.geom], len(spec.schemes))
