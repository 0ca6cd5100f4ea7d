"""Linear stability analysis against the scheme itself."""
import random

import numpy as np
import sympy as sp

import pylbm
from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, resolve

MARGIN = 1e-4


def jacobian(spec, ref, state):
    """Matrix of the collision, linearised at the equilibrium of the state."""
    n = ref.n
    J = np.zeros((n, n))
    for k, c in enumerate(ref.csym):
        for i in range(n):
            e = sp.diff(resolve(ref.eq[i], ref.params), c)
            J[i, ref.cidx[k]] = float(resolve(e, ref.params).subs(state))
    S = np.diag(ref.s)
    if ref.u is None:
        Rm = np.eye(n) - S + S @ J
    else:
        # at the equilibrium, the variations of the velocity do not contribute
        u = np.array([float(g(*[state[c] for c in ref.csym])) for g in ref.u])
        Mu = ref.shifted_matrix(u) @ ref.invM
        S = S.copy()
        for i in ref.cidx:
            S[i, i] = 0
        Rm = np.eye(n) + np.linalg.inv(Mu) @ S @ Mu @ (J - np.eye(n))
    return ref.invM @ Rm @ ref.M


def same_spectrum(a, G):
    """The eigenvalues a are those of G: compare the characteristic polynomials."""
    n = len(a)
    p = np.poly(a)
    q = np.poly(np.linalg.eigvals(G))
    r = max(1.0, np.abs(np.linalg.eigvals(G)).max())
    w = r ** np.arange(n + 1) * np.array([float(sp.binomial(n, k)) for k in range(n + 1)])
    return float(np.max(np.abs(p - q) / w))


def positive(rng, spec):
    """Equilibrium distributions p_j u + q_j u^2 with p_j > 0: the usual stable schemes."""
    for sc in spec.schemes:
        first = next(c for c, i in sc.cons_idx.items() if i == 0)
        for c in list(sc.cons):
            if c != first:
                spec.init.pop(c)
        sc.cons, sc.cons_idx = [first], {first: 0}
    spec.dens = None
    cons = spec.consm
    for sc in spec.schemes:
        u = sc.cons[0]
        p = [sp.Integer(rng.randint(1, 4)) for _ in sc.nums]
        p = [x / sum(p) for x in p]
        feq = [x * u for x in p]
        if rng.random() < 0.6 and sc.n > 1:
            i, j = rng.sample(range(sc.n), 2)
            t = min(p[i], p[j]) / 2 * u * rng.choice(cons)
            feq[i] += t
            feq[j] -= t
        V = [gen.velocity(spec.dim, q) for q in sc.nums]
        la = spec.la_symbol or sp.nsimplify(spec.la)
        same = gen.number(rng, 0.3, 1.0)
        over = rng.random() < 0.4
        for i in range(sc.n):
            P = sp.sympify(sc.P[i])
            vals = [P.subs({gen.XYZ[d]: V[j][d] * la for d in range(spec.dim)}, simultaneous=True) for j in range(sc.n)]
            sc.eq[i] = sp.expand(sum(a * b for a, b in zip(vals, feq)))
            if i:
                sc.s[i] = gen.number(rng, 0.3, 1.9) if over else same
        sc.eq[0] = u
    return spec


def run(case, rec):
    rng = pl.rng_of(case)
    dim = case["dim"]
    relvel = case["kind"] == "relvel"
    spec = gen.random_spec(
        rng, dim=dim, stencil_kind=rng.choice(["classic", "classic", "sym", "asym"]) if dim < 3 else "classic", maxn={1: 6, 2: 9, 3: 7}[dim], sizes={1: (5, 12), 2: (4, 6), 3: (3, 4)},
        relvel=relvel, scale=rng.choice([0.05, 0.15, 0.4]), maxv=2, mass=case["kind"] == "positive", simple=relvel or dim == 3 or rng.random() < 0.4,
    )
    if relvel:
        for s in spec.schemes:
            s.s = [0 if i in s.cons_idx.values() else v for i, v in enumerate(s.s)]
    if case["kind"] == "positive":
        positive(rng, spec)
    spec.N = (spec.N[0],) * dim
    desc = spec.describe()
    rec.sample(desc)
    ref = Ref(spec)
    if ref.cond > 1e5 or ref.n > 20:
        rec.ev("skipped")
        return
    state = {c: round(rng.uniform(-0.4, 0.4), 3) for c in spec.consm}
    if spec.dens is not None:
        state[spec.dens] = round(rng.uniform(0.6, 1.5), 3)
    extra = {}
    d = spec.to_dico()
    if spec.params and rng.random() < 0.5:
        # parameters given to eigenvalues() and not to the scheme
        sy = rng.choice(sorted(spec.params, key=str))
        if sy != spec.la_symbol:
            extra[sy] = d["parameters"].pop(sy)
    with Sut(rec, "stability") as s:
        scheme = pylbm.Scheme(d)
        stab = pylbm.Stability(scheme)
        consm0 = [state[c] for c in scheme.consm]
        N = spec.N[0]
        want_n = N**dim
        ask = want_n + (rng.randint(0, 2) if dim == 2 else 0)
        # the answer does not depend on the previous ones
        r = random.Random("before %d" % case["seed"])
        if r.random() < 0.7:
            for _ in range(r.randint(1, 2)):
                c0 = consm0 if r.random() < 0.6 else [c + r.choice([0.0, 0.1]) for c in consm0]
                more = {y: v * r.choice([0.8, 1.1, 1.3]) for y, v in extra.items()}
                stab.eigenvalues(c0, ask if r.random() < 0.5 else r.randint(2, 4) ** dim, more or None)
                rec.ev("previous_calls")
                rec.ev("previous_extra", bool(extra))
        v_xi, eigs = stab.eigenvalues(consm0, ask, extra or None)
    if s.failed:
        return
    rec.ev("schemes")
    rec.state(dim, ref.n, len(spec.schemes), len(spec.consm), relvel, bool(extra))
    grid = np.stack([g.ravel() for g in np.meshgrid(*[2 * np.pi * np.arange(N) / N] * dim, indexing="ij")])
    ok = v_xi.shape == grid.shape
    if ok:
        key = lambda a: sorted(map(tuple, np.round(a.T * N / (2 * np.pi), 6).tolist()))
        ok = key(v_xi) == key(grid)
    if not rec.check(ok and eigs.shape == (want_n, ref.n), "wave-vectors", "the wave vectors are not the %d of the period: %s" % (want_n, v_xi.T.tolist()[:8]), **desc):
        return
    R = jacobian(spec, ref, state)
    if not np.all(np.isfinite(R)) or np.abs(R).max() > 1e4:
        rec.ev("skipped")
        return
    V = ref.V.astype(float)
    err = {}
    for sign in (1, -1):
        err[sign] = max(same_spectrum(eigs[k], R * np.exp(sign * 1j * (V @ v_xi[:, k]))[None, :]) for k in range(want_n))
    rec.ev("spectra", want_n)
    rec.check(min(err.values()) < 1e-6, "spectrum", "the eigenvalues are not those of the linearised scheme (%.3g) at %s" % (min(err.values()), state), **desc)
    if rec.violations:
        return
    # the answer
    G = [np.linalg.eigvals(R * np.exp(1j * (V @ v_xi[:, k]))[None, :]) for k in range(want_n)]
    rad = np.array([np.abs(g).max() for g in G])
    ans = int(stab.is_stable_l2)
    rec.ev("answer_%d" % ans)
    bad = int((rad > 1 + 1e-3).sum())
    if rad.max() > 1 + MARGIN:
        rec.ev("unstable")
        # the polynomials of high degree underflow in the algorithm of the answer: a known finding
        few = ref.n > 9 or (ref.n > 6 and bad < 3)
        rec.check(ans == 2, "answer-many-velocities" if few else "answer", "an eigenvalue has the modulus %.6g for %d wave vectors, the answer is %d" % (rad.max(), bad, ans), **desc)
    elif rad.max() <= 1 + 1e-10:
        rec.ev("stable")
        # many eigenvalues at the same point of the circle cannot be told from unstable ones
        if case["kind"] == "positive" and ref.n <= 9:
            rec.check(ans != 2, "answer-stable", "the eigenvalues are in the unit disc (%.15g), the answer is unstable" % rad.max(), **desc)
    if case["seed"] % 5 == 0 and not extra:
        figure(rec, spec, stab, state, ask, eigs, desc)
    if case.get("simulate") and not extra:
        simulate(rec, rng, spec, ref, state, v_xi, eigs, desc)


def figure(rec, spec, stab, state, n_wv, eigs, desc):
    """The figure shows the eigenvalues at the state of the dictionary."""
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    plt.close("all")
    with Sut(rec, "visualize") as s:
        stab.visualize({"linearization": dict(state), "number_of_wave_vectors": n_wv})
    if s.failed:
        return
    pts = [c.get_offsets() for f in plt.get_fignums() for a in plt.figure(f).axes for c in a.collections if len(c.get_offsets()) == eigs.size]
    want = np.sort_complex(np.round(eigs.ravel(), 6) + 0.0)
    shown = any(np.allclose(np.sort_complex(np.round(p[:, 0] + 1j * p[:, 1], 6) + 0.0), want, atol=1e-4) for p in map(np.asarray, pts))
    plt.close("all")
    rec.ev("figures")
    rec.check(shown, "figure", "the figure does not show the eigenvalues", **desc)


def simulate(rec, rng, spec, ref, state, v_xi, eigs, desc):
    """The Fourier modes of real runs satisfy the characteristic polynomials."""
    N, n = spec.N[0], ref.n
    m0 = np.zeros((n,) + (1,) * spec.dim)
    for c, i in ref.cons.items():
        m0[i] = state[c]
    f0 = ref.m2f(ref.equilibrium(m0))
    r = np.random.RandomState(rng.randrange(2**31)).uniform(-1, 1, (n,) + tuple(spec.N))
    eps = 1e-4
    hist = []
    with Sut(rec, "simulation") as s:
        runs = []
        for sg in (1, -1):
            sol = pl.simulation(spec)
            pl.set_F(sol, f0 + sg * eps * r)
            out = [pl.get_F(sol, spec)]
            for k in range(n):
                sol.one_time_step()
                out.append(pl.get_F(sol, spec))
            runs.append(out)
    if s.failed:
        return
    axes = tuple(range(1, 1 + spec.dim))
    hist = [np.fft.fftn((a - b) / (2 * eps), axes=axes) for a, b in zip(*runs)]
    big = max(np.abs(h).max() for h in hist)
    if not np.isfinite(big) or big > 100 * np.abs(hist[0]).max():
        rec.ev("skipped_unstable")
        return
    worst = 0
    for k in range(v_xi.shape[1]):
        j = tuple(int(round(x * N / (2 * np.pi))) % N for x in v_xi[:, k])
        best = np.inf
        for p in (np.poly(eigs[k]), np.conj(np.poly(eigs[k]))):
            res = sum(c * hist[n - i][(slice(None),) + j] for i, c in enumerate(p))
            scale = sum(abs(c) for c in p) * big
            best = min(best, np.abs(res).max() / scale)
        worst = max(worst, best)
        rec.ev("modes_simulated")
    rec.check(worst < 1e-3, "simulated-modes", "the modes of a run do not follow the eigenvalues (%.3g)" % worst, **desc)
    rec.ev("simulated")
