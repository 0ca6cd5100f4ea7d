"""Equivalent equations against the scheme itself."""
import mpmath
import numpy as np
import sympy as sp

import pylbm
from checks.c16 import jacobian, positive
from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, resolve


def value(expr, subs):
    e = sp.sympify(expr)
    for _ in range(10):
        n = e.subs(subs)
        if n == e:
            break
        e = n
    return float(e)


def run(case, rec):
    rng = pl.rng_of(case)
    dim = case["dim"]
    relvel = case["kind"] == "relvel"
    spec = gen.random_spec(
        rng, dim=dim, stencil_kind=rng.choice(["classic", "classic", "sym", "asym"]) if dim < 3 else "classic", maxn={1: 5, 2: 9, 3: 7}[dim], relvel=relvel,
        scale=0.4, maxv=2, simple=relvel or dim == 3 or rng.random() < 0.6, mass=case["kind"] != "fixed", nschemes=1 if dim == 3 else None,
    )
    if case["kind"] == "positive":
        positive(rng, spec)
    for s in spec.schemes:
        s.s = [0 if i in s.cons_idx.values() and relvel else v for i, v in enumerate(s.s)]
    desc = spec.describe()
    rec.sample(desc)
    ref = Ref(spec)
    if ref.cond > 1e5 or ref.n > 15:
        rec.ev("skipped")
        return
    with Sut(rec, "equivalent equation") as s:
        scheme = pylbm.Scheme(spec.to_dico())
        ee = pylbm.EquivalentEquation(scheme)
        text = str(ee)
        cons = list(ee.consm)
        c1, c2 = ee.coeff_order1, ee.coeff_order2
    if s.failed:
        return
    nc = len(cons)
    rec.ev("equations")
    rec.state(dim, ref.n, len(spec.schemes), nc, relvel)
    if not rec.check(sorted(map(str, cons)) == sorted(map(str, spec.consm)), "moments", "the moments are %s" % cons, **desc):
        return
    rec.check(all(sp.pretty(c) in text for c in cons), "text", "the text misses a moment", **desc)
    if not rec.check(len(c1) == dim and all(sp.Matrix(c).shape == (nc, 1) for c in c1) and len(c2) == dim and all(len(r) == dim for r in c2), "shape", "the coefficients of the directions", **desc):
        return
    idx = [ref.cons[c] for c in cons]
    oth = [i for i in range(ref.n) if i not in idx]
    eqs = [resolve(e, ref.params) for e in ref.eq]
    sigma = np.diag([1 / ref.s[i] - 0.5 for i in oth])
    for trial in range(2):
        state = {c: round(rng.uniform(-0.4, 0.4), 4) for c in cons}
        if spec.dens is not None:
            state[spec.dens] = round(rng.uniform(0.6, 1.5), 4)
        subs = dict(ref.params)
        subs.update(state)
        meq = np.array([value(e, state) for e in eqs])
        J = np.array([[value(sp.diff(eqs[i], c), state) for c in cons] for i in oth])
        flux, coef = [], []
        Lam = [ref.la * ref.M @ np.diag(ref.V[:, d]) @ ref.invM for d in range(dim)]
        sub = lambda L, a, b: L[np.ix_(a, b)]
        for d in range(dim):
            flux.append((Lam[d] @ meq)[idx])
        A1 = [sub(L, idx, idx) + sub(L, idx, oth) @ J for L in Lam]  # derivatives of the fluxes
        for d in range(dim):
            row = []
            for i in range(dim):
                theta = sub(Lam[i], oth, idx) + sub(Lam[i], oth, oth) @ J - J @ A1[i]
                row.append(-sub(Lam[d], idx, oth) @ sigma @ theta)
            coef.append(row)
        with Sut(rec, "coefficients") as s:
            g1 = [np.array([value(e, subs) for e in c]) for c in c1]
            g2 = [[np.array([[value(e, subs) for e in list(m.row(k))] for k in range(nc)]) for m in r] for r in c2]
        if s.failed:
            return
        big = 1 + max(np.abs(f).max() for f in flux)
        rec.ev("fluxes", dim * nc)
        for d in range(dim):
            rec.check(np.allclose(g1[d], flux[d], rtol=0, atol=1e-8 * big), "flux", "the flux %d is %s instead of %s at %s" % (d, g1[d], flux[d], state), **desc)
        big = 1 + max(np.abs(x).max() for r in coef for x in r)
        same = all(np.allclose(g2[d][i], coef[d][i], rtol=0, atol=1e-8 * big) for d in range(dim) for i in range(dim))
        rec.ev("diffusions", dim * dim * nc * nc)
        if not relvel:
            rec.check(same, "second-order", "the second order coefficients are %s instead of %s at %s" % (g2, coef, state), **desc)
        if rec.violations:
            return
        dispersion(rec, rng, spec, ref, state, cons, A1, g2, "relative-velocity" if relvel else "dispersion", desc)


def dispersion(rec, rng, spec, ref, state, cons, A1, g2, mech, desc):
    """The slow modes of the linearised scheme, to the second order in the wave number."""
    R = jacobian(spec, ref, state)
    nc = len(cons)
    fast = [1 - ref.s[i] for i in range(ref.n) if i not in ref.cidx]
    if min(abs(1 - x) for x in fast) < 0.05:
        return
    mpmath.mp.dps = 40
    k = mpmath.mpf("1e-5")
    kap = [mpmath.mpf(rng.uniform(-1, 1)) for _ in range(ref.dim)]
    G = mpmath.matrix(R.tolist())
    # the rounding of R would move the slow modes: project them on the conserved moments exactly
    M, invM = mpmath.matrix(ref.M.tolist()), None
    invM = M ** -1
    Rm = mpmath.matrix((ref.M @ R @ ref.invM).tolist())
    for i in ref.cidx:
        for j in range(ref.n):
            Rm[i, j] = mpmath.mpf(1 if i == j else 0)
    G = invM * Rm * M
    for j in range(ref.n):
        e = mpmath.expj(-k * sum(kap[d] * int(ref.V[j, d]) for d in range(ref.dim)))
        for i in range(ref.n):
            G[i, j] *= e
    E = mpmath.eig(G, left=False, right=False)
    slow = [mpmath.log(e) for e in sorted(E, key=lambda e: abs(e - 1))[:nc]]
    L = mpmath.zeros(nc, nc)
    for a in range(nc):
        for b in range(nc):
            for d in range(ref.dim):
                L[a, b] += -1j * k * kap[d] * mpmath.mpf(A1[d][a, b]) / ref.la
                for i in range(ref.dim):
                    L[a, b] += k**2 * kap[d] * kap[i] * mpmath.mpf(g2[d][i][a, b]) / ref.la**2
    size = float(max(abs(x) for x in L) / k) + 1
    P = mpmath.eye(nc)
    rec.ev("dispersions")
    for q in range(1, nc + 1):
        P = P * L
        t = sum(P[a, a] for a in range(nc))
        w = sum(x**q for x in slow)
        err = float(abs(t - w) / k ** (q + 1))
        tol = 1e-2 * size ** (q + 2) * q
        if err > tol:
            rec.check(False, mech, "the slow modes of the scheme differ at the second order (%.3g, power %d) at %s" % (err, q, state), **desc)
            return
    rec.check(True, mech, "")
