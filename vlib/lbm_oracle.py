"""Reference implementation of the d'Humieres scheme, written from its definition.

Everything is evaluated with numpy on periodic arrays; no code of pylbm is used.
"""
import numpy as np
import sympy as sp

from .gen import T, XYZ, velocity


def resolve(expr, params):
    e = sp.sympify(expr)
    for _ in range(10):
        n = e.subs(params)
        if n == e:
            break
        e = n
    return e


class Ref:
    """The scheme of a Spec, numerically. Moments and distributions are kept in the
    order of the dictionary: scheme by scheme, in the order of the polynomials /
    of the velocities."""

    def __init__(self, spec, params=None):
        self.spec = spec
        self.dim = spec.dim
        self.params = dict(spec.params)
        if params:
            self.params.update(params)
        self.la = float(resolve(spec.la_symbol, self.params)) if spec.la_symbol is not None else float(spec.la)
        self.dx = spec.dx
        self.dt = self.dx / self.la
        self.V, self.P, self.eq, self.s, self.ptr = [], [], [], [], [0]
        self.cons = {}  # symbol -> index
        for sc in spec.schemes:
            o = self.ptr[-1]
            self.V += [velocity(self.dim, k) for k in sc.nums]
            self.P += [sp.sympify(p) for p in sc.P]
            self.eq += [sp.sympify(e) for e in sc.eq]
            self.s += [float(resolve(v, self.params)) for v in sc.s]
            for c, i in sc.cons_idx.items():
                self.cons[c] = o + i
            self.ptr.append(o + sc.n)
        self.V = np.array(self.V, dtype=int)
        self.n = self.ptr[-1]
        self.csym = list(self.cons)
        self.cidx = [self.cons[c] for c in self.csym]
        self.M = self.moment_matrix()
        self.invM = np.linalg.inv(self.M)
        self.cond = np.linalg.cond(self.M)
        self._eqf = sp.lambdify(self.csym + [T], [resolve(e, self.params) for e in self.eq], "numpy")
        self.src = {}
        for sc in spec.schemes:
            for c, e in sc.source.items():
                self.src[self.cons[c]] = sp.lambdify(self.csym + [T], resolve(e, self.params), "numpy")
        self.u = None
        if spec.rel_vel is not None:
            self.u = [sp.lambdify(self.csym, resolve(e, self.params), "numpy") for e in spec.rel_vel]
            self._Pn = [sp.lambdify(XYZ[: self.dim], resolve(p, self.params), "numpy") for p in self.P]

    def moment_matrix(self):
        M = np.zeros((self.n, self.n))
        for k in range(len(self.ptr) - 1):
            for i in range(self.ptr[k], self.ptr[k + 1]):
                f = sp.lambdify(XYZ[: self.dim], resolve(self.P[i], self.params), "numpy")
                for j in range(self.ptr[k], self.ptr[k + 1]):
                    M[i, j] = f(*(self.la * self.V[j]))
        return M

    # -- pieces
    def equilibrium(self, m):
        """The equilibrium moments of the conserved ones in m; m has shape (n, ...)."""
        c = [m[i] for i in self.cidx]
        v = self._eqf(*c, 0.0)
        return np.stack([np.broadcast_to(np.asarray(e, dtype=float), m.shape[1:]) for e in v])

    def source(self, m, t, fraction=0.5):
        c = [m[i].copy() for i in self.cidx]
        m = m.copy()
        for i, g in self.src.items():
            m[i] = m[i] + fraction * self.dt * g(*c, t)
        return m

    def f2m(self, f):
        return np.tensordot(self.M, f, 1)

    def m2f(self, m):
        return np.tensordot(self.invM, m, 1)

    def stream(self, f):
        return np.stack([np.roll(f[k], tuple(self.V[k]), tuple(range(self.dim))) for k in range(self.n)])

    def shifted_matrix(self, u):
        """M(u): the polynomials evaluated at la*v - u; u has shape (dim, ...)."""
        sh = u.shape[1:]
        M = np.zeros((self.n, self.n) + sh)
        for k in range(len(self.ptr) - 1):
            for i in range(self.ptr[k], self.ptr[k + 1]):
                for j in range(self.ptr[k], self.ptr[k + 1]):
                    M[i, j] = self._Pn[i](*[self.la * self.V[j][d] - u[d] for d in range(self.dim)])
        return M

    def collide(self, f, t=0.0):
        s = np.array(self.s).reshape((-1,) + (1,) * self.dim)
        m = self.f2m(f)
        if self.src:
            m = self.source(m, t)
        if self.u is None:
            m = (1 - s) * m + s * self.equilibrium(m)
        else:
            # relax the moments relative to the moving frame, the conserved
            # moments of the fixed frame being untouched by the collision
            c = [m[i] for i in self.cidx]
            u = np.stack([np.broadcast_to(np.asarray(g(*c), dtype=float), m.shape[1:]) for g in self.u])
            Mu = self.shifted_matrix(u)
            eq = self.equilibrium(m)
            cell = "ij...,j...->i..."
            mu = np.einsum(cell, Mu, self.m2f(m))
            equ = np.einsum(cell, Mu, self.m2f(eq))
            new = (1 - s) * mu + s * equ
            for i in self.cidx:
                new[i] = mu[i]
            axes = tuple(range(2, 2 + self.dim)) + (0, 1)
            inv = np.linalg.inv(Mu.transpose(axes))
            fn = np.einsum("...ij,j...->i...", inv, new) if False else None
            fn = np.moveaxis(np.einsum("...ij,...j->...i", inv, np.moveaxis(new, 0, -1)), -1, 0)
            m = self.f2m(fn)
        if self.src:
            m = self.source(m, t)
        return self.m2f(m)

    def step(self, f, t=0.0):
        return self.collide(self.stream(f), t)

    # -- initial state
    def init_moments(self, coords=None):
        x = np.meshgrid(*(coords or self.spec.centers()), indexing="ij")
        sh = x[0].shape
        m = np.zeros((self.n,) + sh)
        for c, i in self.cons.items():
            v = self.spec.init[c]
            if isinstance(v, tuple):
                v = v[0](*x, *v[1])
            elif callable(v):
                v = v(*x)
            m[i] = v
        return self.equilibrium(m)

    def init_f(self, coords=None):
        return self.m2f(self.init_moments(coords))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False, float("inf")
    if not a.size:
        return True, 0.0
    scale = max(1.0, float(np.max(np.abs(b))))
    err = np.abs(a - b)
    m = float(np.max(err)) if np.all(np.isfinite(err)) else float("inf")
    return m <= tol * scale, m / scale
