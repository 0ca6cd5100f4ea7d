"""Random valid lattice Boltzmann schemes, and the dictionaries pylbm takes.

A Spec holds everything in a form that both pylbm (through `to_dico`) and the
independent oracle (vlib.lbm_oracle) can read; nothing of pylbm is used here.
"""
import itertools
import math
import random
import types

import numpy as np
import sympy as sp

X, Y, Z = sp.symbols("X,Y,Z")
XYZ = (X, Y, Z)
T = sp.Symbol("t")


# ---------------------------------------------------------------------------
# numbering of the velocities, from the documentation of pylbm, re-derived


def velocity(dim, num):
    """The velocity of number `num`: shells of increasing maximum norm."""
    if num == 0:
        return (0,) * dim
    if dim == 1:
        return ((num + 1) // 2,) if num % 2 else (-(num // 2),)
    n = 1
    while (2 * n + 1) ** dim <= num:
        n += 1
    shell = shell2(n) if dim == 2 else shell3(n)
    return shell[num - (2 * n - 1) ** dim]


def shell2(n):
    out = [(n, 0), (0, n), (-n, 0), (0, -n), (n, n), (-n, n), (-n, -n), (n, -n)]
    for j in range(1, n):
        out += [(n, j), (j, n), (-j, n), (-n, j), (-n, -j), (-j, -n), (j, -n), (n, -j)]
    return out


_S3 = {}


def shell3(n):
    if n in _S3:
        return _S3[n]
    out = []
    for i in range(n + 1):
        for j in range(i + 1):
            for p in sorted(set(itertools.permutations((j, i, n)))):
                signs = [(1, -1) if c else (1,) for c in p]
                # signs of the first component vary the slowest
                for s in itertools.product(*signs):
                    out.append(tuple(a * b for a, b in zip(s, p)))
    _S3[n] = out
    return out


# ---------------------------------------------------------------------------


class SchemeSpec:
    def __init__(self):
        self.nums = []
        self.P = []
        self.eq = []
        self.s = []
        self.cons = []  # symbols in the order given to pylbm
        self.cons_idx = {}  # symbol -> index in P
        self.source = {}
        self.use_M = False
        self.feq = None

    @property
    def n(self):
        return len(self.nums)


class Spec:
    def __init__(self):
        self.dim = 2
        self.la = 1.0
        self.la_symbol = None
        self.N = (8, 8)
        self.dx = 0.125
        self.xmin = (0.0, 0.0)
        self.label = -1
        self.schemes = []
        self.rel_vel = None
        self.params = {}
        self.init = {}
        self.inittype = "moments"
        self.bc = None
        self.elements = None
        self.settings = None
        self.algo = None
        self.codegen = None
        self.generator = "numpy"
        self.extra = {}

    # -- derived
    @property
    def consm(self):
        return [c for s in self.schemes for c in s.cons]

    @property
    def nv(self):
        return sum(s.n for s in self.schemes)

    def box(self):
        b = {}
        for d, k in zip(range(self.dim), "xyz"):
            b[k] = [self.xmin[d], self.xmin[d] + self.N[d] * self.dx]
        b["label"] = self.label
        return b

    def centers(self):
        return [self.xmin[d] + (np.arange(self.N[d]) + 0.5) * self.dx for d in range(self.dim)]

    def to_dico(self, generator=None):
        la = self.la_symbol if self.la_symbol is not None else self.la
        d = {
            "box": self.box(),
            "space_step": self.dx,
            "scheme_velocity": la,
            "schemes": [self.scheme_dico(s) for s in self.schemes],
            "generator": generator or self.generator,
            "init": dict(self.init),
        }
        if self.inittype != "moments":
            d["inittype"] = self.inittype
        if self.params:
            d["parameters"] = dict(self.params)
        if self.rel_vel is not None:
            d["relative_velocity"] = list(self.rel_vel)
        if self.bc is not None:
            d["boundary_conditions"] = self.bc
        if self.elements:
            d["elements"] = list(self.elements)
        if self.settings is not None or self.algo is not None:
            d["lbm_algorithm"] = {}
            if self.algo is not None:
                d["lbm_algorithm"]["name"] = self.algo
            if self.settings is not None:
                d["lbm_algorithm"]["settings"] = dict(self.settings)
        if self.codegen is not None:
            d["codegen_option"] = dict(self.codegen)
        if getattr(self, "shuffle", None) is not None:
            # the same dictionary, its entries in another order
            r = random.Random(self.shuffle)
            d["schemes"] = [dict(r.sample(list(x.items()), len(x))) for x in d["schemes"]]
            d = dict(r.sample(list(d.items()), len(d)))
        return d

    def scheme_dico(self, s):
        d = {
            "velocities": list(s.nums),
            "conserved_moments": list(s.cons),
            "relaxation_parameters": list(s.s),
        }
        if s.use_M:
            la = sp.nsimplify(self.la)
            V = [velocity(self.dim, k) for k in s.nums]
            d["M"] = sp.Matrix(
                s.n,
                s.n,
                lambda i, j: sp.sympify(s.P[i]).subs({XYZ[k]: V[j][k] * la for k in range(self.dim)}, simultaneous=True),
            )
        else:
            d["polynomials"] = list(s.P)
        if s.feq is not None:
            d["feq"] = s.feq
        else:
            d["equilibrium"] = list(s.eq)
        if s.source:
            d["source_terms"] = dict(s.source)
        return d

    def describe(self):
        return {
            "dim": self.dim,
            "N": list(self.N),
            "dx": self.dx,
            "la": str(self.la_symbol or self.la),
            "params": {str(k): str(v) for k, v in self.params.items()},
            "rel_vel": None if self.rel_vel is None else [str(u) for u in self.rel_vel],
            "label": str(self.label),
            "generator": self.generator,
            "schemes": [
                {
                    "velocities": list(s.nums),
                    "polynomials": [str(p) for p in s.P],
                    "equilibrium": "feq" if s.feq else [str(e) for e in s.eq],
                    "s": [str(v) for v in s.s],
                    "conserved": [str(c) for c in s.cons],
                    "source": {str(k): str(v) for k, v in s.source.items()},
                    "M": s.use_M,
                }
                for s in self.schemes
            ],
        }


# ---------------------------------------------------------------------------
# random pieces


def rank_mod(rows, p=2147483647):
    """Indices of the rows that increase the rank (exact for our small integers)."""
    basis = []
    keep = []
    for idx, r in enumerate(rows):
        v = [int(a) % p for a in r]
        for piv, b in basis:
            if v[piv]:
                c = v[piv]
                v = [(a - c * bb) % p for a, bb in zip(v, b)]
        piv = next((i for i, a in enumerate(v) if a), None)
        if piv is None:
            continue
        inv = pow(v[piv], p - 2, p)
        v = [(a * inv) % p for a in v]
        basis.append((piv, v))
        keep.append(idx)
    return keep


def basis_monomials(dim, V):
    n = len(V)
    rng = [max(len({v[d] for v in V}) - 1, 0) for d in range(dim)]
    exps = sorted(itertools.product(*(range(r + 1) for r in rng)), key=lambda e: (sum(e), tuple(-a for a in e)))
    rows = [[math.prod(v[d] ** e[d] for d in range(dim)) for v in V] for e in exps]
    keep = rank_mod(rows)
    assert len(keep) == n, (V, len(keep))
    return [exps[k] for k in keep]


STENCILS = {
    1: [[0, 1, 2], [1, 2], [0, 1, 2, 3, 4], [1, 2, 3, 4], [0, 1, 2]],
    2: [
        list(range(9)),
        list(range(5)),
        [1, 2, 3, 4],
        [5, 6, 7, 8],
        [0, 5, 6, 7, 8],
        list(range(9)),
        list(range(13)),
        [0, 9, 10, 11, 12, 1, 2, 3, 4],
        list(range(1, 9)),
    ],
    3: [
        list(range(7)),
        [0] + list(range(1, 7)) + list(range(19, 27)),
        list(range(19)),
        list(range(1, 7)),
        [0] + list(range(7, 19)),
    ],
}


def has_all_axes(dim, V):
    return all(any(v[d] for v in V) for d in range(dim))


def random_stencil(rng, dim, kind="mixed", maxn=None, maxv=3):
    """A list of velocity numbers; symmetric (closed under v -> -v) unless kind='asym'."""
    if kind == "mixed":
        kind = rng.choice(["classic", "classic", "sym", "perm"])
    if kind in ("classic", "perm"):
        nums = list(rng.choice(STENCILS[dim]))
        if maxn:
            least = min(len(q) for q in STENCILS[dim])
            while len(nums) > max(maxn, least):
                nums = list(rng.choice(STENCILS[dim]))
        if kind == "perm":
            rng.shuffle(nums)
        return nums
    nmax = {1: 2 * maxv + 1, 2: (2 * min(maxv, 3) + 1) ** 2, 3: 27 if maxv < 2 else 125}[dim]
    while True:
        nums = []
        lim = maxn or {1: 7, 2: 11, 3: 13}[dim]
        want = rng.randint(2 * dim + 1, max(lim, 2 * dim + 1))
        table = {velocity(dim, k): k for k in range(nmax)}
        pool = list(range(1, nmax))
        # favour the short ones
        pool.sort(key=lambda k: rng.random() * (1 + 2 * max(abs(c) for c in velocity(dim, k))))
        if kind == "sym":
            if rng.random() < 0.7:
                nums.append(0)
            for k in pool:
                if len(nums) >= want:
                    break
                if k in nums:
                    continue
                v = velocity(dim, k)
                nums += [k, table[tuple(-c for c in v)]]
        else:
            nums = ([0] if rng.random() < 0.5 else []) + pool[:want]
        V = [velocity(dim, k) for k in nums]
        if has_all_axes(dim, V):
            break
    rng.shuffle(nums)
    return nums


def rat(rng, a, b, den=None):
    """A rational between a and b with a small denominator."""
    q = den or rng.choice([4, 5, 7, 8, 10, 16])
    return sp.Rational(rng.randint(math.ceil(a * q), math.floor(b * q)), q)


def number(rng, a, b):
    """A number as users write them: a float, an int or a rational."""
    r = rat(rng, a, b)
    k = rng.random()
    if k < 0.5:
        return float(r)
    return r


def random_polynomials(rng, dim, V, simple=False):
    exps = basis_monomials(dim, V)
    mono = [sp.Mul(*[XYZ[d] ** e[d] for d in range(dim)]) for e in exps]
    P = []
    for i, m in enumerate(mono):
        p = m
        if not simple and i:
            if rng.random() < 0.4:
                p = p * rng.choice([2, sp.Rational(1, 2), 3, -1])
            for j in range(i):
                if rng.random() < 0.8 / max(i, 1):
                    p = p + rng.choice([1, -1, 2, sp.Rational(-1, 2)]) * mono[j]
        if rng.random() < 0.3:
            p = sp.factor(p)
        P.append(p)
    return P


def random_expr(rng, cons, scale=0.3, dens=None, quad=True, tdep=False):
    """A smooth random function of the conserved moments."""
    e = sp.Integer(0)
    for c in cons:
        if rng.random() < 0.7:
            e += number(rng, -scale, scale) * c
    if quad and cons and rng.random() < 0.6:
        a, b = rng.choice(cons), rng.choice(cons)
        term = number(rng, -scale, scale) * a * b
        if dens is not None and rng.random() < 0.5:
            term = term / dens
        e += term
    if quad and cons and rng.random() < 0.15:
        e += number(rng, -scale, scale) * sp.sin(rng.choice(cons))
    if quad and cons and rng.random() < 0.15:
        e += number(rng, -scale, scale) * sp.exp(rng.choice(cons) / 2)
    if quad and dens is not None and rng.random() < 0.1:
        e += number(rng, -scale, scale) * sp.sqrt(dens)
    if rng.random() < 0.2:
        e += number(rng, -scale, scale)
    if tdep:
        k = rng.randint(0, 2)
        if k == 0:
            e += number(rng, -scale, scale) * T
        elif k == 1:
            e += number(rng, -scale, scale) * sp.cos(3 * T)
        elif cons:
            e += number(rng, -scale, scale) * rng.choice(cons) * (1 + T)
    return e


NAMES = ["rho", "qx", "qy", "u", "w", "h", "E", "p", "mass", "q_x", "c1", "T0", "phi"]


def wave(rng, dim, L, xmin, amp, mean):
    """A function of the coordinates, as the users write them (plain functions)."""
    modes = []
    for _ in range(rng.randint(1, 3)):
        k = [rng.randint(0, 2) for _ in range(dim)]
        if not any(k):
            k[rng.randrange(dim)] = 1
        modes.append((rng.uniform(0.2, 1) * amp / 2, k, rng.uniform(0, 6.28)))

    def value(*x):
        r = mean
        for a, k, ph in modes:
            arg = ph
            for d in range(dim):
                arg = arg + 2 * np.pi * k[d] * (x[d] - xmin[d]) / L[d]
            r = r + a * np.cos(arg)
        return r + 0 * sum(x)

    if dim == 1:
        return lambda x: value(x)
    if dim == 2:
        return lambda x, y: value(x, y)
    return lambda x, y, z: value(x, y, z)


SIZES = {1: (9, 24), 2: (7, 13), 3: (5, 7)}


def random_spec(
    rng,
    dim=None,
    nschemes=None,
    stencil_kind="mixed",
    maxn=None,
    simple=False,
    sources=None,
    relvel=None,
    mass=False,
    params=True,
    quad=True,
    maxv=2,
    cons_order="any",
    sizes=None,
    scale=0.3,
    allow_M=True,
):
    """A random Spec on a periodic box."""
    sizes = sizes or SIZES
    sp_ = Spec()
    dim = dim or rng.choice([1, 2, 2, 2, 3])
    sp_.dim = dim
    sp_.N = tuple(rng.randint(*sizes[dim]) for _ in range(dim))
    if dim == 3:
        maxv = 1 if rng.random() < 0.85 else 2
    sp_.dx = rng.choice([1.0, 0.5, 0.125, 0.1, 0.05, 2.0])
    sp_.xmin = tuple(rng.choice([0.0, 0.0, -1.0, 0.5]) for _ in range(dim))
    sp_.la = rng.choice([1, 1.0, 2.0, 0.5, 1.5, 3])
    ns = nschemes or rng.choice([1, 1, 1, 2, 3] if dim < 3 else [1, 1, 2])
    names = rng.sample(NAMES, len(NAMES))
    allcons = []
    for k in range(ns):
        s = SchemeSpec()
        mn = maxn or (13 if rng.random() < 0.1 else 9)
        if dim == 3:
            mn = min(maxn or 7, 7 if ns > 1 else 19)
        s.nums = random_stencil(rng, dim, stencil_kind, mn, maxv)
        V = [velocity(dim, q) for q in s.nums]
        s.P = random_polynomials(rng, dim, V, simple)
        nc = rng.randint(1, min(3, s.n - 1))
        if mass or rng.random() < 0.6:
            # the usual choice: the first polynomials
            idx = list(range(nc))
        else:
            idx = sorted(rng.sample(range(s.n), nc))
        syms = [sp.Symbol(names.pop()) for _ in idx]
        for sy, i in zip(syms, idx):
            s.cons_idx[sy] = i
        s.cons = list(syms)
        if cons_order == "any" and rng.random() < 0.5:
            rng.shuffle(s.cons)
        allcons += syms
        sp_.schemes.append(s)
    dens = sp_.schemes[0].cons[0] if quad else None
    sp_.dens = None
    # the density is the one which stays away from zero
    if dens is not None:
        dens = min(sp_.schemes[0].cons_idx, key=lambda c: sp_.schemes[0].cons_idx[c])
        sp_.dens = dens
    if any(set(s.nums) not in [set(c) for c in STENCILS[dim]] for s in sp_.schemes):
        # sympy needs minutes to invert some matrices of floats
        sp_.la = max(1, int(sp_.la))
    L = [n * sp_.dx for n in sp_.N]
    for s in sp_.schemes:
        inv = {i: c for c, i in s.cons_idx.items()}
        for i in range(s.n):
            if i in inv:
                s.eq.append(inv[i])
                s.s.append(rng.choice([0, 0.0, 0, number(rng, 0.2, 1.8)]))
            else:
                s.eq.append(random_expr(rng, allcons, scale, dens, quad))
                s.s.append(number(rng, 0.2, 1.9))
        for c in s.cons_idx:
            mean = 1.0 if c == dens else rng.uniform(-0.3, 0.3)
            sp_.init[c] = wave(rng, dim, L, sp_.xmin, 0.2, mean) if rng.random() < 0.8 or c == dens else float(rat(rng, -0.3, 0.3))
    if sources is None:
        sources = False
    if sources:
        for s in sp_.schemes:
            for c in s.cons_idx:
                if rng.random() < 0.7:
                    s.source[c] = random_expr(rng, allcons, 0.4, None, quad, tdep=rng.random() < 0.4)
        if not any(s.source for s in sp_.schemes):
            c = rng.choice(allcons)
            for s in sp_.schemes:
                if c in s.cons_idx:
                    s.source[c] = random_expr(rng, allcons, 0.4, None, quad)
        for s in sp_.schemes:
            s.source = {k: (v if not (isinstance(v, sp.Expr) and v == 0) else sp.Rational(1, 8) * k) for k, v in s.source.items()}
    if relvel:
        u = []
        for d in range(dim):
            r = rng.random()
            if r < 0.3:
                u.append(number(rng, -0.3, 0.3))
            else:
                c = rng.choice(allcons)
                e = number(rng, -0.4, 0.4) * c
                if dens is not None and c != dens and rng.random() < 0.5:
                    e = c / dens
                u.append(e)
        sp_.rel_vel = u
    if allow_M and ns == 1 and relvel is not True and rng.random() < 0.15:
        sp_.schemes[0].use_M = True
    if params and rng.random() < 0.6:
        parametrize(rng, sp_)
    return sp_


def parametrize(rng, spec):
    """Replace some of the numbers of a spec by symbols with values in `parameters`."""
    if not any(s.use_M for s in spec.schemes) and rng.random() < 0.5:
        LA = sp.Symbol("LA")
        spec.la_symbol = LA
        spec.params[LA] = spec.la
    k = 0
    for s in spec.schemes:
        for i in range(s.n):
            if i in s.cons_idx.values():
                continue
            if rng.random() < 0.3:
                sy = sp.Symbol("s_%d" % k)
                k += 1
                v = s.s[i]
                if rng.random() < 0.3:
                    tau = sp.Symbol("tau_%d" % k)
                    spec.params[tau] = float(1 / v)
                    spec.params[sy] = 1 / tau
                else:
                    spec.params[sy] = v
                s.s[i] = sy if rng.random() < 0.7 else 1 / (1 / sy)
    if rng.random() < 0.5:
        a = sp.Symbol("alpha")
        spec.params[a] = float(rat(rng, 0.1, 0.9))
        for s in spec.schemes:
            for i in range(s.n):
                if i not in s.cons_idx.values() and rng.random() < 0.3:
                    s.eq[i] = s.eq[i] * a if rng.random() < 0.5 else s.eq[i] + a * rng.choice(spec.consm) / 4
    if spec.la_symbol is not None and rng.random() < 0.5:
        for s in spec.schemes:
            for i in range(s.n):
                if i not in s.cons_idx.values() and rng.random() < 0.3:
                    s.eq[i] = s.eq[i] * spec.la_symbol / spec.la
    return spec
