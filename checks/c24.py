"""The generated code computes the expressions of the dictionary."""
import mpmath as mp
import numpy as np
import sympy as sp

import pylbm

from vlib import pl
from vlib.core import Sut

X = sp.Symbol("X")
u, v = sp.symbols("u, v")
UNARY = ["sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "Abs", "sign", "floor", "ceiling", "Heaviside"]
BINARY = ["Max", "Min", "atan2", "Mod", "Piecewise", "Piecewise2", "Pow"]
mp.mp.dps = 50


class Undefined(Exception):
    pass


def number(rng):
    return rng.choice([
        sp.Integer(rng.randint(-3, 5)), sp.Rational(rng.randint(-7, 7), rng.randint(2, 9)), sp.Float(round(rng.uniform(-2, 2), 3)), sp.Float(rng.choice([0.1, 1e-3, 12.5, 1 / 3])),
        sp.pi, sp.E, sp.sqrt(2), sp.Integer(10) ** rng.randint(2, 5), sp.Float(rng.choice([1e-5, 250.0])),
    ])


def condition(rng, d):
    a, b = leaf(rng), number(rng) if rng.random() < 0.6 else leaf(rng)
    c = rng.choice([sp.Gt, sp.Lt, sp.Ge, sp.Le])(a, b)
    r = rng.random()
    if r < 0.15:
        c = sp.And(c, rng.choice([sp.Gt, sp.Lt])(leaf(rng), number(rng)))
    elif r < 0.3:
        c = sp.Or(c, rng.choice([sp.Gt, sp.Lt])(leaf(rng), number(rng)))
    elif r < 0.4:
        c = sp.Not(c)
    return c


def leaf(rng):
    return rng.choice([u, v, u, v, u - v, u + number(rng), 2 * v, u * v])


def expression(rng, d=2):
    if d == 0:
        return leaf(rng) if rng.random() < 0.8 else number(rng)
    r = rng.random()
    if r < 0.2:
        return expression(rng, d - 1) + expression(rng, d - 1)
    if r < 0.4:
        return expression(rng, d - 1) * (number(rng) if rng.random() < 0.5 else expression(rng, d - 1))
    if r < 0.5:
        return expression(rng, d - 1) / (expression(rng, d - 1) ** 2 + rng.choice([1, 2, 0.5]))
    if r < 0.58:
        return leaf(rng) ** rng.choice([2, 3, 4, 5, -1, -2, -3])
    a = expression(rng, d - 1)
    if r < 0.8:
        f = rng.choice(UNARY)
        if f in ("sqrt", "log", "acosh") and rng.random() < 0.8:
            a = a**2 + 1
        if f in ("asin", "acos", "atanh") and rng.random() < 0.8:
            a = a / (1 + a**2)
        if f in ("exp", "sinh", "cosh"):
            a = a / (1 + sp.Abs(a))
        return getattr(sp, f)(a)
    f = rng.choice(BINARY)
    b = expression(rng, d - 1)
    if f == "Piecewise":
        return sp.Piecewise((a, condition(rng, d)), (b, True))
    if f == "Piecewise2":
        return sp.Piecewise((a, condition(rng, d)), (b, condition(rng, d)), (number(rng), True))
    if f == "Pow":
        e = rng.choice([sp.Rational(7, 5), sp.Rational(-1, 2), sp.Rational(1, 3), sp.Float(1.4), v / 3, sp.Float(-0.75)])
        return (leaf(rng) ** 2 + rng.choice([1, 0.5])) ** e
    if f == "Mod":
        return sp.Mod(leaf(rng), rng.choice([2, 3, sp.Rational(1, 2)]))
    if f in ("Max", "Min") and rng.random() < 0.4:
        return getattr(sp, f)(a, b, number(rng))
    return getattr(sp, f)(a, b)


def usable(e):
    if len(e.atoms(sp.Piecewise, sp.Heaviside)) > 1 or e.has(sp.ITE):
        # sympy nests the conditions of one in those of the other
        return False
    return not e.has(sp.nan, sp.zoo, sp.oo, -sp.oo, sp.I) and e.free_symbols and not e.has(sp.re, sp.im, sp.arg, sp.Derivative, sp.DiracDelta)


def real(x):
    if isinstance(x, mp.mpc):
        if x.imag != 0:
            raise Undefined
        x = x.real
    if not mp.isfinite(x):
        raise Undefined
    return x


def truth(c, val):
    if c in (sp.true, True):
        return True
    if c in (sp.false, False):
        return False
    if isinstance(c, sp.And):
        return all([truth(a, val) for a in c.args])
    if isinstance(c, sp.Or):
        return any([truth(a, val) for a in c.args])
    if isinstance(c, sp.Not):
        return not truth(c.args[0], val)
    a, b = (evaluate(x, val)[0] for x in (c.lhs, c.rhs))
    if abs(a - b) < 1e-9 * (1 + abs(a)):
        raise Undefined
    return {">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b}[c.rel_op]


def evaluate(e, val):
    """Value and magnitude of the intermediate values."""
    if e in val:
        return val[e], abs(val[e])
    if isinstance(e, sp.Float):
        return mp.mpf(float(e)), abs(mp.mpf(float(e)))
    if isinstance(e, sp.Rational):
        x = mp.mpf(e.p) / e.q
        return x, abs(x)
    if e is sp.pi:
        return mp.pi(), mp.pi()
    if e is sp.E:
        return mp.e(), mp.e()
    if isinstance(e, sp.Piecewise):
        for x, c in e.args:
            if truth(c, val):
                return evaluate(x, val)
        raise Undefined
    args = [evaluate(a, val) for a in e.args]
    x = [a[0] for a in args]
    m = [a[1] for a in args]
    if isinstance(e, sp.Add):
        return mp.fsum(x), mp.fsum(m)
    if isinstance(e, sp.Mul):
        return mp.fprod(x), mp.fprod(m)
    if isinstance(e, sp.Pow):
        if x[0] == 0 and x[1] <= 0:
            raise Undefined
        if x[0] < 0 and x[1] != int(x[1]):
            raise Undefined
        y = real(mp.power(x[0], x[1]))
        if x[1] < 0:
            # conditioning of the inverse
            return y, abs(y) * (m[0] / abs(x[0])) ** abs(x[1])
        return y, max(abs(y), m[0] ** x[1])
    if isinstance(e, (sp.Max, sp.Min)):
        return (max if isinstance(e, sp.Max) else min)(x), max(m)
    name = type(e).__name__
    if name in ("floor", "ceiling", "sign", "Heaviside", "Mod"):
        z = x[0] / x[1] if name == "Mod" else x[0]
        near = z - mp.nint(z) if name in ("floor", "ceiling", "Mod") else z
        if abs(near) < 1e-9:
            raise Undefined
        y = {"floor": lambda: mp.floor(z), "ceiling": lambda: mp.ceil(z), "sign": lambda: mp.sign(z), "Heaviside": lambda: mp.mpf(z > 0), "Mod": lambda: x[0] - x[1] * mp.floor(z)}[name]()
        return y, abs(y) + m[0]
    if name == "atan2":
        if x[0] == 0 or (abs(x[0]) < 1e-9 and x[1] < 0):
            raise Undefined
        y = mp.atan2(x[0], x[1])
        return y, 4 + m[0] + m[1]
    if name in ("tan", "log", "asin", "acos", "atanh", "acosh"):
        # near the singularities
        d = {"tan": lambda: mp.cos(x[0]), "log": lambda: x[0], "asin": lambda: 1 - abs(x[0]), "acos": lambda: 1 - abs(x[0]), "atanh": lambda: 1 - abs(x[0]), "acosh": lambda: x[0] - 1}[name]()
        if abs(d) < 1e-2 or (name != "tan" and d < 0):
            raise Undefined
    f = {"Abs": abs}.get(name) or getattr(mp, name)
    y = real(f(x[0]))
    return y, (abs(y) + (1 + abs(y)) * m[0]) * (1e4 if name in ("tan", "asin", "acos", "log", "atanh", "acosh") and abs(d) < 0.1 else 1)


def values(e, us, vs):
    """Values in each cell, with the tolerances (nan where it is not compared)."""
    out, tol = np.full(len(us), np.nan), np.full(len(us), np.nan)
    for i, (a, b) in enumerate(zip(us, vs)):
        if not (np.isfinite(a) and np.isfinite(b) and abs(a) < 1e3 and abs(b) < 1e3):
            continue
        try:
            y, m = evaluate(e, {u: mp.mpf(float(a)), v: mp.mpf(float(b))})
        except (Undefined, ZeroDivisionError, OverflowError, ValueError):
            continue
        if m > 1e7:
            continue
        out[i], tol[i] = float(y), 1e-9 * (1 + float(m)) + 1e-9 * abs(float(y))
    return out, tol


def fields(rng, n):
    r = np.random.default_rng(rng.randrange(2**31))
    k = rng.choice(["smooth", "integers", "mixed", "large", "tiny"])
    a, b = r.uniform(-2, 2, (2, n))
    if k == "integers":
        a, b = r.integers(-3, 4, (2, n)).astype(float)
    elif k == "mixed":
        a[::3] = 0
        b[1::4] = 0
        a[2::5] *= 10
    elif k == "large":
        a, b = 20 * a, 20 * b
    elif k == "tiny":
        a[::2] *= 1e-6
        b[::2] *= 1e-6
    return k, a, b


def run(case, rec):
    with np.errstate(all="ignore"):
        _run(case, rec)


def _run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    count = 1 if kind == "relvel" else (10 if case["gen"] == "numpy" else 16)
    es = []
    while len(es) < count:
        e = expression(rng, rng.choice([1, 2, 2]))
        if usable(e):
            es.append(e)
    n = 24
    name, a, b = fields(rng, n)
    la = rng.choice([1.0, 2.0])
    c = [rng.choice([0.0, 1.5, -0.25]) for _ in es]
    ws = sp.symbols("w0:%d" % len(es))
    vel = [1, 2]
    schemes = [
        {"velocities": vel, "conserved_moments": [u], "polynomials": [1, X], "relaxation_parameters": [0, 1.0], "equilibrium": [u, 0]},
        {"velocities": vel, "conserved_moments": [v], "polynomials": [1, X], "relaxation_parameters": [0, 1.0], "equilibrium": [v, 0]},
    ]
    s2 = rng.choice([0.7, 1.3])
    for e, w, c0 in zip(es, ws, c):
        x = {"velocities": vel, "conserved_moments": [w], "polynomials": [1, X], "relaxation_parameters": [0, 1.0], "equilibrium": [w, c0]}
        if kind == "equilibrium":
            x["equilibrium"] = [w, e]
        elif kind == "source":
            x["source_terms"] = {w: e}
        else:
            x = {"velocities": [0, 1, 2], "conserved_moments": [w], "polynomials": [1, X, X**2], "relaxation_parameters": [0, 1.5, s2], "equilibrium": [w, 0.25 * w, 0.5 * w]}
        schemes.append(x)
    w0 = {w: np.random.default_rng(rng.randrange(2**31)).uniform(-1, 1, n) for w in ws}
    index = lambda f: (lambda x: f[np.rint((x - 0.5 / n) * n).astype(int) % n])
    init = {u: index(a), v: index(b)}
    init.update({w: index(w0[w]) for w in ws})
    dico = {"box": {"x": [0, 1], "label": -1}, "space_step": 1.0 / n, "scheme_velocity": la, "schemes": schemes, "init": init, "generator": case["gen"]}
    if kind == "relvel":
        dico["relative_velocity"] = [es[0]]
    desc = {"expressions": [str(e) for e in es], "kind": kind, "generator": case["gen"], "fields": name, "la": la}
    rec.sample(desc)
    rec.ev("compiled_backend_cases", case["gen"] == "cython")
    with Sut(rec, "simulation") as s:
        with np.errstate(all="ignore"):
            sol = pylbm.Simulation(dico)
            nv = 4 + (3 if kind == "relvel" else 2) * len(es)
            F0 = np.stack([np.array(sol.F[k]) for k in range(nv)])
            sol.one_time_step()
            F1 = np.stack([np.array(sol.F[k]) for k in range(nv)])
    if s.failed:
        return
    if kind == "equilibrium":
        moments(case, rec, es, F0, la, "initial", desc)
    done = 0
    U, V = F1[0] + F1[1], F1[2] + F1[3]
    # the state after the transport
    S = np.stack([np.roll(f, k) for f, k in zip(F0, [1, -1] * 2 + ([0, 1, -1] if kind == "relvel" else [1, -1] * len(es)))])
    if kind == "equilibrium":
        moments(case, rec, es, F1, la, "step", desc)
        return
    for i, e in enumerate(es):
        y, tol = values(e, U, V)
        if kind == "relvel":
            m = np.array([S[4] + S[5] + S[6], la * (S[5] - S[6]), la**2 * (S[5] + S[6])])
            g = np.array([F1[4] + F1[5] + F1[6], la * (F1[5] - F1[6]), la**2 * (F1[5] + F1[6])])
            q = np.array([m[0], 0.25 * m[0], 0.5 * m[0]])
            T = lambda m, y: np.array([m[0], m[1] - y * m[0], m[2] - 2 * y * m[1] + y**2 * m[0]])
            z, zq = T(m, y), T(q, y)
            z[1] += 1.5 * (zq[1] - z[1])
            z[2] += s2 * (zq[2] - z[2])
            ref = T(z, -y)
            size = (1 + np.abs(m).max(axis=0)) * (1 + np.abs(y)) ** 3
            diff = np.abs(g - ref).max(axis=0)
            tol = tol * size * 10
        else:
            k = 4 + 2 * i
            m0, m1 = S[k] + S[k + 1], la * (S[k] - S[k + 1])
            g0 = F1[k] + F1[k + 1]
            dt = 1.0 / n / la
            ref, got = m0 + dt * y, g0
            diff = np.abs(got - ref)
            # the values are computed again from distributions which hold both moments
            tol = tol + 1e-9 * (np.abs(m0) + np.abs(m1))
        judge(case, rec, e, y, tol, diff, U, V, kind, desc)


def moments(case, rec, es, F, la, when, desc):
    U, V = F[0] + F[1], F[2] + F[3]
    for i, e in enumerate(es):
        y, tol = values(e, U, V)
        k = 4 + 2 * i
        got = la * (F[k] - F[k + 1])
        with np.errstate(all="ignore"):
            tol = tol + 1e-9 * np.abs(F[k] + F[k + 1])
            judge(case, rec, e, y, tol, np.abs(got - y), U, V, "equilibrium (%s)" % when, desc)


def judge(case, rec, e, y, tol, diff, U, V, what, desc):
    finite = np.isfinite(y) & np.isfinite(tol)
    bad = finite & ~(diff <= tol)
    rec.ev("expressions")
    rec.ev("points_compared", int(finite.sum()))
    names = {type(f).__name__ for f in e.atoms(sp.Function, sp.Piecewise, sp.Max, sp.Min, sp.Pow)}
    rec.ev("functions", len(names))
    rec.ev("piecewise", e.has(sp.Piecewise))
    rec.ev("minmax", e.has(sp.Max, sp.Min))
    for f in names:
        rec.state(what, case["gen"], f)
    if bad.any():
        i = int(np.argmax(bad))
        rec.check(False, "expression", "%s: %s at u=%r, v=%r is %r, with an error of %.3g" % (what, e, float(U[i]), float(V[i]), float(y[i]), float(diff[i])), expression=str(e), **desc)
    else:
        rec.check(True, "expression", "")
