"""The geometric elements against their definition."""
import itertools
import os

import numpy as np

import pylbm
from vlib import geom, pl
from vlib.core import Sut


def write_stl(path, e):
    """The box of a Parallelepiped description as a closed surface with outward normals."""
    p, a, b, c = (np.array(e[k]) for k in ("point", "v1", "v2", "v3"))
    if np.linalg.det(np.array([a, b, c])) < 0:
        a, b = b, a
    q = lambda i, j, k: p + i * a + j * b + k * c
    faces = [
        (q(0, 0, 0), q(0, 1, 0), q(1, 1, 0), q(1, 0, 0)),
        (q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)),
        (q(0, 0, 0), q(1, 0, 0), q(1, 0, 1), q(0, 0, 1)),
        (q(0, 1, 0), q(0, 1, 1), q(1, 1, 1), q(1, 1, 0)),
        (q(0, 0, 0), q(0, 0, 1), q(0, 1, 1), q(0, 1, 0)),
        (q(1, 0, 0), q(1, 1, 0), q(1, 1, 1), q(1, 0, 1)),
    ]
    with open(path, "w") as f:
        f.write("solid s\n")
        for x, y, z, t in faces:
            for tri in ((x, y, z), (x, z, t)):
                n = np.cross(tri[1] - tri[0], tri[2] - tri[0])
                n = n / np.linalg.norm(n)
                f.write("facet normal %.9e %.9e %.9e\nouter loop\n" % tuple(n))
                for v in tri:
                    f.write("vertex %.9e %.9e %.9e\n" % tuple(v))
                f.write("endloop\nendfacet\n")
        f.write("endsolid s\n")


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    stl = kind == "STL"
    name = "Parallelepiped" if stl else kind
    dim = 2 if name in geom.KINDS[2] else 3
    size = rng.choice([0.2, 1.0, 1.0, 7.0])
    center = [rng.uniform(-2, 2) for _ in range(dim)]
    d = geom.random_element(rng, dim, center, size, [1, 2, 3, 4, 5, 6, 7], kind=name)
    tol = 1e-7
    if stl:
        d["label"] = [d["label"][0]] * 6
        tol = 1e-4  # single precision in the files
    sh = geom.shape(d)
    desc = dict(element=d)
    rec.sample(d)
    with Sut(rec, "creation") as s:
        if stl:
            path = os.path.join(os.environ["TMPDIR"], "e%s.stl" % case["seed"])
            write_stl(path, d)
            el = pylbm.STLElement(path, label=d["label"][0])
            os.unlink(path)
        else:
            el = geom.build(d)
        rec.check(el.test_label(), "test_label", "test_label refuses the labels %s" % (el.label,), **desc)
        rec.check(bool(el.isfluid) is False and el.dim == dim, "attributes", "isfluid or dim is wrong", **desc)
        bl, ur = (np.array(b, dtype=float) for b in el.get_bounds())
    if s.failed:
        return
    rec.ev("kinds")
    # a grid which covers the element, unaligned
    n = 17 if dim == 2 else 9
    mid = geom.middle(d)
    ax = [np.sort(mid[k] + size * 4.2 * (np.linspace(-0.5, 0.5, n + k) + rng.uniform(-0.01, 0.01))) for k in range(dim)]
    grid = np.meshgrid(*ax, sparse=True, indexing="ij")
    p = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)
    lev = sh.level(p)
    sure = np.abs(lev) > tol * size
    with Sut(rec, "point_inside") as s:
        inside = np.array(el.point_inside(grid))
    if s.failed:
        return
    rec.ev("points", sure.sum())
    bad = (inside.astype(bool) != (lev < 0)) & sure
    rec.check(not bad.any(), "point_inside", "%d points on the wrong side, e.g. %s" % (bad.sum(), p[bad][:1].tolist()), **desc)
    # the bounds contain every point of the element
    lo, hi = geom.extent(d)
    rec.check(bool(np.all(bl <= lo + tol * size) and np.all(ur >= hi - tol * size)), "bounds-extent", "the bounds %s %s do not contain the element, which extends from %s to %s" % (bl, ur, lo, hi), **desc)
    q = p[(lev < 0) & sure]
    if len(q):
        rec.check(bool(np.all(q >= bl - tol) and np.all(q <= ur + tol)), "bounds", "a point of the element is out of its bounds %s %s" % (bl, ur), **desc)
    for trial in range(4):
        if trial == 0:
            v = np.array(rng.choice([w for w in itertools.product((-1, 0, 1), repeat=dim) if any(w)]), dtype=float) * 0.3 * size
        elif trial == 1:
            v = np.array(rng.choice([w for w in itertools.product((-2, -1, 0, 1, 2), repeat=dim) if any(w)]), dtype=float) * 0.3 * size
        else:
            v = np.array([rng.uniform(-1, 1) for _ in range(dim)]) * size
        dmax = rng.choice([None, 1.0, 1.0, 2.5])
        normal = rng.random() < 0.6
        with Sut(rec, "distance") as s:
            alpha, border, nrm = el.distance(grid, v, dmax, normal)
        if s.failed:
            return
        alpha = np.array(alpha, dtype=float)
        border = np.array(border)
        if not rec.check(alpha.shape == lev.shape, "distance-shape", "shape %s" % (alpha.shape,), **desc):
            return
        lim = np.inf if dmax is None else dmax
        idxs = [i for i in np.ndindex(*lev.shape) if sure[i]]
        rng.shuffle(idxs)
        for i in idxs[:150]:
            r = sh.interval(p[i], v)
            ts = []
            if r is not None:
                ts = [(t, f) for t, f in ((r[0], r[1]), (r[2], r[3])) if t > -tol * 10]
                if r[2] - r[0] < 1e-3 and stl:
                    continue
                if r[2] - r[0] < 1e-7:
                    continue
            if any(abs(t) < 10 * tol or abs(t - lim) < 10 * tol for t, _ in ts):
                continue
            if stl and r is not None and near_edge(sh, p[i] + ts[0][0] * v if ts else p[i], size):
                continue
            ts = [(t, f) for t, f in ts if t <= lim]
            if not ts and any(near_miss(sh, p[i], v, lim, size, tol) for _ in (0,)):
                continue
            g = alpha[i]
            rec.ev("rays")
            if not ts:
                ok = g <= 0 or (stl and not np.isfinite(g))
                if not rec.check(bool(ok), "distance-none", "point %s direction %s: distance %.9g where the element is not reached (dmax=%s)" % (p[i], v, g, dmax), **desc):
                    return
                continue
            t, f = ts[0]
            rec.ev("hits")
            rec.state(kind, tuple(np.sign(v)), f, lev[i] < 0)
            if not rec.check(abs(g - t) < 20 * tol * max(1, t), "distance", "point %s direction %s: distance %.9g instead of %.9g (dmax=%s)" % (p[i], v, g, t, dmax), **desc):
                return
            amb = corner(sh, p[i] + t * v, size)
            if not amb:
                if not rec.check(int(border[i]) == sh.label(f), "label", "point %s direction %s: label %s instead of %s" % (p[i], v, border[i], sh.label(f)), **desc):
                    return
            if normal and not amb:
                w = np.array(nrm[i], dtype=float)
                nn = sh.normal(f, p[i] + t * v)
                if stl:
                    w = w / np.linalg.norm(w)
                elif nn @ v > 0:
                    # the normal is turned toward the point
                    nn = -nn
                rec.ev("normals")
                if not rec.check(bool(np.abs(w - nn).max() < (1e-3 if stl else 1e-6)), "normal", "point %s direction %s: normal %s instead of %s" % (p[i], v, w, nn), **desc):
                    return


def corner(sh, q, size):
    """Two faces meet at q."""
    near = 0
    if sh.quad is not None:
        B, c = sh.quad
        near += abs(np.linalg.norm(B @ (q - c)) - 1) < 1e-5
    for n, d, _ in sh.halves:
        near += abs(n @ q - d) / np.linalg.norm(n) < 1e-5 * size
    return near > 1


def near_edge(sh, q, size):
    near = 0
    for n, d, _ in sh.halves:
        near += abs(n @ q - d) / np.linalg.norm(n) < 1e-3 * size
    return near > 1


def near_miss(sh, p, v, lim, size, tol):
    """The ray grazes the element."""
    ts = np.linspace(0, min(lim, 50), 400)
    lev = sh.level(p + ts[:, None] * v)
    return np.min(np.abs(lev)) < max(tol, 1e-6) * size * 10
