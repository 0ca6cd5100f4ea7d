"""Geometry, from the definitions: convex elements, constructive fluid domain, links.

Nothing of pylbm is used, except `build`, which makes the element of pylbm that
the description stands for.
"""
import math

import numpy as np

EPS = 1e-8


class Shape:
    """A convex body: a quadric |B(x-c)| <= 1 (possibly a cylinder) cut by half spaces."""

    def __init__(self, dim, quad=None, qlabel=None, halves=()):
        self.dim = dim
        self.quad = quad  # (B, c)
        self.qlabel = qlabel
        self.halves = list(halves)  # (n, d, label): n.x <= d

    def level(self, p):
        """Negative inside, positive outside; p has shape (..., dim)."""
        out = np.full(p.shape[:-1], -np.inf)
        if self.quad is not None:
            B, c = self.quad
            q = (p - c) @ B.T
            out = np.maximum(out, np.sqrt((q**2).sum(-1)) - 1)
        for n, d, _ in self.halves:
            out = np.maximum(out, (p @ n - d) / max(np.linalg.norm(n), 1e-300))
        return out

    def interval(self, p, v):
        """The parameters for which p + t v is inside: (t0, face0, t1, face1) or None."""
        t0, t1, f0, f1 = -math.inf, math.inf, None, None
        faces = []
        if self.quad is not None:
            B, c = self.quad
            a, b = B @ v, B @ (p - c)
            A, H, C = a @ a, a @ b, b @ b - 1
            if A < 1e-24:
                if C > 0:
                    return None
            else:
                disc = H * H - A * C
                if disc <= 0:
                    return None
                r = math.sqrt(disc)
                faces.append(((-H - r) / A, (-H + r) / A, "q"))
        for i, (n, d, _) in enumerate(self.halves):
            s, g = n @ v, d - n @ p
            if abs(s) < 1e-14 * np.linalg.norm(n) * np.linalg.norm(v):
                if g < 0:
                    return None
            elif s > 0:
                faces.append((-math.inf, g / s, i))
            else:
                faces.append((g / s, math.inf, i))
        for a, b, f in faces:
            if a > t0:
                t0, f0 = a, f
            if b < t1:
                t1, f1 = b, f
        if t0 >= t1:
            return None
        return t0, f0, t1, f1

    def label(self, face):
        return self.qlabel if face == "q" else self.halves[face][2]

    def normal(self, face, p):
        """The outward unit normal at a point of a face."""
        if face == "q":
            B, c = self.quad
            g = B.T @ (B @ (p - c))
        else:
            g = self.halves[face][0]
        return g / np.linalg.norm(g)

    def first_hit(self, p, v):
        """Least t > 0 with p + t v on the boundary: (t, face) or None; None also if ambiguous."""
        r = self.interval(p, v)
        if r is None:
            return None
        for t, f in ((r[0], r[1]), (r[2], r[3])):
            if t > 0 and math.isfinite(t):
                return t, f
        return None


def _para(p, a, b, lab):
    """b >= 0, a >= 0, b <= 1, a <= 1 in the frame (a, b) from p."""
    A = np.array([a, b]).T
    iA = np.linalg.inv(A)
    ca, cb = iA @ p
    return iA, ca, cb


def shape(d):
    """The Shape of a description {'kind', ..., 'label'}; the faces are labelled as documented."""
    k = d["kind"]
    g = {q: np.array(w, dtype=float) for q, w in d.items() if isinstance(w, list) and q != "label"}
    lab = d["label"]
    if k == "Circle" or k == "Sphere":
        dim = 2 if k == "Circle" else 3
        return Shape(dim, (np.eye(dim) / d["radius"], g["center"]), lab[0])
    if k == "Ellipse":
        return Shape(2, (np.linalg.inv(np.array([g["v1"], g["v2"]]).T), g["center"]), lab[0])
    if k == "Ellipsoid":
        return Shape(3, (np.linalg.inv(np.array([g["v1"], g["v2"], g["v3"]]).T), g["center"]), lab[0])
    if k in ("Parallelogram", "Triangle"):
        iA = np.linalg.inv(np.array([g["v1"], g["v2"]]).T)
        ca, cb = iA @ g["point"]
        h = [(-iA[1], -cb, lab[0]), (-iA[0], -ca, lab[1])]
        if k == "Triangle":
            h.append((iA[0] + iA[1], ca + cb + 1, lab[2]))
        else:
            h += [(iA[1], cb + 1, lab[2]), (iA[0], ca + 1, lab[3])]
        return Shape(2, None, None, h)
    # cylinders: the side(s), then the bottom and the top
    if k == "Parallelepiped":
        w = 0.5 * g["v3"]
        c = g["point"] + w
        v1, v2 = g["v1"], g["v2"]
    else:
        w, c, v1, v2 = g["w"], g["center"], g["v1"], g["v2"]
    iA = np.linalg.inv(np.array([v1, v2, w]).T)
    q = iA @ c
    h = [(-iA[2], 1 - q[2], lab[-2]), (iA[2], 1 + q[2], lab[-1])]
    if k in ("CylinderCircle", "CylinderEllipse"):
        return Shape(3, (iA[:2], c), lab[0], h)
    h += [(-iA[1], -q[1], lab[0]), (-iA[0], -q[0], lab[1])]
    if k == "CylinderTriangle":
        h.append((iA[0] + iA[1], q[0] + q[1] + 1, lab[2]))
    else:
        h += [(iA[0], q[0] + 1, lab[2]), (iA[1], q[1] + 1, lab[3])]
    return Shape(3, None, None, h)


def build(d):
    import pylbm

    k = d["kind"]
    kw = {"label": d["label"] if len(set(d["label"])) > 1 or d.get("aslist") else d["label"][0], "isfluid": d.get("isfluid", False)}
    if k in ("Circle", "Sphere"):
        return getattr(pylbm, k)(d["center"], d["radius"], **kw)
    if k == "Ellipse":
        return pylbm.Ellipse(d["center"], d["v1"], d["v2"], **kw)
    if k == "Ellipsoid":
        return pylbm.Ellipsoid(d["center"], d["v1"], d["v2"], d["v3"], **kw)
    if k in ("Parallelogram", "Triangle"):
        return getattr(pylbm, k)(d["point"], d["v1"], d["v2"], **kw)
    if k == "Parallelepiped":
        return pylbm.Parallelepiped(d["point"], d["v1"], d["v2"], d["v3"], **kw)
    return getattr(pylbm, k)(d["center"], d["v1"], d["v2"], d["w"], **kw)


NLAB = {"Circle": 1, "Sphere": 1, "Ellipse": 1, "Ellipsoid": 1, "Parallelogram": 4, "Triangle": 3,
        "CylinderCircle": 3, "CylinderEllipse": 3, "CylinderTriangle": 5, "Parallelepiped": 6}
KINDS = {2: ["Circle", "Ellipse", "Parallelogram", "Triangle"],
         3: ["Sphere", "Ellipsoid", "CylinderCircle", "CylinderEllipse", "CylinderTriangle", "Parallelepiped"]}


def _rot(rng, dim):
    m = np.random.default_rng(rng.randrange(2**31)).normal(size=(dim, dim))
    q, _ = np.linalg.qr(m)
    return q


def random_element(rng, dim, center, size, labels, kind=None, isfluid=False):
    """A random element about `center`, of half width about `size`."""
    k = kind or rng.choice(KINDS[dim])
    lab = [rng.choice(labels) for _ in range(NLAB[k])]
    if rng.random() < 0.3:
        lab = [lab[0]] * len(lab)
    d = {"kind": k, "label": lab, "isfluid": isfluid, "aslist": rng.random() < 0.5}
    c = np.array(center, dtype=float)
    s = size
    u = lambda a=0.6, b=1.3: s * rng.uniform(a, b)
    R = _rot(rng, dim) if rng.random() < 0.75 else np.eye(dim)
    if k in ("Circle", "Sphere"):
        d.update(center=c.tolist(), radius=u())
    elif k == "Ellipse":
        v = np.array([R[0] * u(), R[1] * u(0.4, 1.2)])
        d.update(center=c.tolist(), v1=v[0].tolist(), v2=v[1].tolist())
    elif k == "Ellipsoid":
        v = [R[i] * u(0.5, 1.3) for i in range(3)]
        d.update(center=c.tolist(), v1=v[0].tolist(), v2=v[1].tolist(), v3=v[2].tolist())
    elif k in ("Parallelogram", "Triangle"):
        a, b = R[0] * u(1.2, 2.4), R[1] * u(1.2, 2.4)
        if rng.random() < 0.5:
            b = b + rng.uniform(-0.5, 0.5) * a
        if rng.random() < 0.5:
            a, b = b, a
        f = 3 if k == "Triangle" else 2
        d.update(point=(c - (a + b) / f).tolist(), v1=a.tolist(), v2=b.tolist())
    elif k in ("CylinderCircle", "CylinderEllipse"):
        r = u(0.6, 1.1)
        r2 = r if k == "CylinderCircle" else u(0.6, 1.1)
        w = R[2] * u(0.6, 1.3)
        if rng.random() < 0.3:
            w = w + rng.uniform(-0.4, 0.4) * s * R[0]
        v1, v2 = R[0] * r, R[1] * r2
        if k == "CylinderCircle":
            v2 = v2 * (np.linalg.norm(v1) / np.linalg.norm(v2))
        d.update(center=c.tolist(), v1=v1.tolist(), v2=v2.tolist(), w=w.tolist())
    elif k == "CylinderTriangle":
        a, b, w = R[0] * u(1.2, 2.4), R[1] * u(1.2, 2.4), R[2] * u(0.6, 1.3)
        if rng.random() < 0.4:
            b = b + rng.uniform(-0.4, 0.4) * a
        d.update(center=(c - (a + b) / 3).tolist(), v1=a.tolist(), v2=b.tolist(), w=w.tolist())
    else:
        a, b, w = R[0] * u(1.2, 2.4), R[1] * u(1.2, 2.4), R[2] * u(1.2, 2.4)
        if rng.random() < 0.4:
            b = b + rng.uniform(-0.4, 0.4) * a
        if rng.random() < 0.4:
            w = w + rng.uniform(-0.4, 0.4) * a
        d.update(point=(c - (a + b + w) / 2).tolist(), v1=a.tolist(), v2=b.tolist(), v3=w.tolist())
    return d


def middle(d):
    """A point inside of the element."""
    if "center" in d:
        c = np.array(d["center"])
        if d["kind"] == "CylinderTriangle":
            c = c + (np.array(d["v1"]) + np.array(d["v2"])) / 3
        return c
    c = np.array(d["point"])
    return c + sum(np.array(d[k]) for k in ("v1", "v2", "v3") if k in d) / (3 if d["kind"] == "Triangle" else 2)


def extent(d):
    """The exact bounds of the element."""
    v = {k: np.array(w, dtype=float) for k, w in d.items() if isinstance(w, list) and k != "label"}
    k = d["kind"]
    if k in ("Circle", "Sphere"):
        r = d["radius"]
        return v["center"] - r, v["center"] + r
    if k in ("Ellipse", "Ellipsoid", "CylinderCircle", "CylinderEllipse"):
        r = np.sqrt(sum(v[q] ** 2 for q in ("v1", "v2", "v3") if q in v)) + np.abs(v.get("w", 0))
        return v["center"] - r, v["center"] + r
    if k == "CylinderTriangle":
        pts = [v["center"] + a + s * v["w"] for a in (0, v["v1"], v["v2"]) for s in (-1, 1)]
    elif k == "Triangle":
        pts = [v["point"] + a for a in (0, v["v1"], v["v2"])]
    elif k == "Parallelogram":
        pts = [v["point"] + a * v["v1"] + b * v["v2"] for a in (0, 1) for b in (0, 1)]
    else:
        pts = [v["point"] + a * v["v1"] + b * v["v2"] + c * v["v3"] for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    pts = np.array(pts)
    return pts.min(axis=0), pts.max(axis=0)


class Fluid:
    """The fluid domain: a box, minus the solid elements, plus the fluid ones, in order."""

    def __init__(self, dim, N, dx, xmin, labels, elements):
        self.dim, self.N, self.dx = dim, tuple(N), dx
        self.xmin = np.array(xmin, dtype=float)
        self.labels = labels  # 2*dim labels of the sides
        self.L = np.array(N) * dx
        self.elems = [(shape(e), bool(e.get("isfluid"))) for e in elements]
        x = [self.xmin[d] + (np.arange(N[d]) + 0.5) * dx for d in range(dim)]
        self.p = np.stack(np.meshgrid(*x, indexing="ij"), axis=-1)
        self.ambiguous = np.zeros(self.N, dtype=bool)
        self.fluid = np.ones(self.N, dtype=bool)
        for s, isf in self.elems:
            lev = s.level(self.p)
            self.ambiguous |= np.abs(lev) < EPS
            self.fluid[lev <= 0] = isf

    def inside(self, q):
        """Is the point q in the fluid (the box being extended through the periodic sides)."""
        for d in range(self.dim):
            if q[d] < self.xmin[d] and self.labels[2 * d] != -1:
                return False
            if q[d] > self.xmin[d] + self.L[d] and self.labels[2 * d + 1] != -1:
                return False
        r = True
        for s, isf in self.elems:
            if s.level(q[None])[0] <= 0:
                r = isf
        return r

    def link(self, idx, v):
        """From a fluid cell along v (in cells):
        ('fluid', target) | ('periodic', target) | ('wall', distance, label, normal) | ('ambiguous',)"""
        tgt = [idx[d] + v[d] for d in range(self.dim)]
        out = False
        per = False
        for d in range(self.dim):
            if tgt[d] < 0:
                out |= self.labels[2 * d] != -1
                per = True
            elif tgt[d] >= self.N[d]:
                out |= self.labels[2 * d + 1] != -1
                per = True
        wrapped = tuple(tgt[d] % self.N[d] for d in range(self.dim))
        p = self.p[tuple(idx)]
        dv = np.array(v, dtype=float) * self.dx
        for s, isf in self.elems if any(v) else ():
            r = s.interval(p, dv)
            if r is None or r[2] < 0 or r[0] > 1:
                continue
            if per and not out:
                # an element which sticks out of a periodic side
                return ("ambiguous",)
            if isf and r[0] > 0 and (out or r[2] < 1):
                # through a fluid element, from outside to outside
                return ("ambiguous",)
            if isf and r[0] < 0 and 0 < r[2] < 1 and self.inside(p + (r[2] + 1e-6) * dv):
                # out of a fluid element in the fluid
                return ("ambiguous",)
        if not out and self.fluid[wrapped]:
            return ("periodic" if per else "fluid", wrapped)
        cand = []
        for d in range(self.dim):
            if v[d] < 0 and self.labels[2 * d] != -1:
                cand.append(((self.xmin[d] - p[d]) / dv[d], self.labels[2 * d], -np.eye(self.dim)[d]))
            elif v[d] > 0 and self.labels[2 * d + 1] != -1:
                cand.append(((self.xmin[d] + self.L[d] - p[d]) / dv[d], self.labels[2 * d + 1], np.eye(self.dim)[d]))
        for s, isf in self.elems:
            r = s.interval(p, dv)
            if r:
                for t, f in ((r[0], r[1]), (r[2], r[3])):
                    if f is not None:
                        n = s.normal(f, p + t * dv)
                        cand.append((t, s.label(f), n if n @ dv > 0 else -n))
        cand = sorted([c for c in cand if -EPS < c[0] < 1 + EPS], key=lambda c: c[0])
        ts = [c[0] for c in cand]
        if any(t < EPS or t > 1 - EPS for t in ts):
            return ("ambiguous",)
        for i, (t, lab, nrm) in enumerate(cand):
            nxt = ts[i + 1] if i + 1 < len(ts) else 1.0
            if nxt - t < EPS:
                # two boundaries at the same place
                labs = {c[1] for c in cand if abs(c[0] - t) < 1e-6}
                if len(labs) > 1:
                    j = i
                    while j + 1 < len(cand) and cand[j + 1][0] - t < EPS:
                        j += 1
                    end = cand[j + 1][0] if j + 1 < len(cand) else 1.0
                    if end - t > 10 * EPS and not self.inside(p + 0.5 * (t + end) * dv):
                        return ("wall", t, tuple(labs), None)
                    return ("ambiguous",)
                continue
            if not self.inside(p + 0.5 * (t + nxt) * dv):
                if any(isf for _, isf in self.elems):
                    # back in the fluid before the target: which of the
                    # boundaries counts is a convention
                    rest = ts[i + 1 :] + [1.0]
                    if any(b - a > EPS and self.inside(p + 0.5 * (a + b) * dv) for a, b in zip(rest, rest[1:])):
                        return ("ambiguous",)
                
                # at a corner, which of the faces counts is a convention
                tied = any(abs(c[0] - t) < 1e-6 for c in cand[:i] + cand[i + 1 :])
                return ("wall", t, lab, None if tied else nrm)
        return ("ambiguous",)
