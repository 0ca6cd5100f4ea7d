"""Source terms: two half steps of the explicit Euler scheme around the relaxation."""
import numpy as np
import sympy as sp

from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (8, 16), 2: (6, 10), 3: (5, 6)}


def make(case, rng):
    kind = case["kind"]
    spec = gen.random_spec(
        rng,
        dim=rng.choice([1, 2, 2, 2, 3]),
        nschemes=rng.choice([2, 3]) if kind == "coupled" else rng.choice([1, 1, 2]),
        maxn=7 if kind in ("coupled", "cython") else 9,
        sizes=SIZES,
        sources=True,
        allow_M=False,
    )
    cons = spec.consm
    for s in spec.schemes:
        for c in list(s.cons_idx):
            if kind == "number":
                s.source[c] = rng.choice([1, 0.5, -0.25, sp.Rational(1, 3), sp.Float("0.7"), 2, gen.number(rng, -1, 1) * c])
            elif kind == "time" and rng.random() < 0.8:
                s.source[c] = s.source.get(c, sp.Integer(0)) + rng.choice([gen.T, sp.cos(3 * gen.T), sp.exp(-gen.T), gen.T * c, gen.T**2 / 2 + rng.choice(cons)])
            elif kind == "coupled":
                # every source uses moments of the other schemes
                other = rng.choice(cons)
                s.source[c] = s.source.get(c, sp.Integer(0)) + gen.number(rng, -0.6, 0.6) * other * rng.choice([1, c])
    if kind in ("one", "coupled", "cython") and rng.random() < 0.4:
        k = sp.Symbol("k_src")
        spec.params[k] = float(gen.rat(rng, 0.1, 1))
        for s in spec.schemes:
            for c in s.source:
                if rng.random() < 0.6:
                    s.source[c] = s.source[c] * k
    if kind in ("cython", "number") and case["seed"] % 6 == 5:
        # source terms which vanish
        k0 = sp.Symbol("k_zero")
        spec.params[k0] = rng.choice([0, 0.0])
        for s in spec.schemes:
            for c in s.source:
                s.source[c] = rng.choice([0, 0.0, sp.Integer(0), k0, k0 * c])
    spec.generator = "cython" if kind == "cython" else "numpy"
    pl.vary(case, spec)
    return spec


def run(case, rec):
    if case["kind"] == "space":
        return space(case, rec)
    rng = pl.rng_of(case)
    for attempt in range(6):
        spec = make(case, rng)
        ref = Ref(spec)
        if ref.cond < 1e5:
            break
    else:
        return
    rec.sample(spec.describe())
    rec.ev("compiled_backend_cases", spec.generator == "cython")
    src = [sp.sympify(e) for s in spec.schemes for e in s.source.values()]
    rec.ev("time_dependent", any(e.has(gen.T) for e in src))
    for s in spec.schemes:
        if any(sp.sympify(e).free_symbols & (set(spec.consm) - {c}) for c, e in s.source.items()):
            rec.ev("coupled_sources")
    with Sut(rec, "creation") as s:
        sol = pl.simulation(spec)
    if s.failed:
        return
    f = ref.init_f() + 0.05 * pl.random_F(spec, rng, 1.0)
    pl.set_F(sol, f)
    t = 0.0
    if rng.random() < 0.5:
        t = sol.t = rng.choice([0.5, 1.25, 3.0])
    for k in range(4):
        fs = ref.stream(f)
        f = ref.collide(fs, t)
        t += ref.dt
        dens = ref.f2m(f)
        with np.errstate(all="ignore"):
            half = ref.source(ref.f2m(fs), t - ref.dt)
        if not pl.stable(ref, f, dens, half):
            rec.ev("skipped_unstable")
            return
        with Sut(rec, "time step") as s:
            sol.one_time_step()
            F = pl.get_F(sol, spec)
            m = pl.get_m(sol, spec)
        if s.failed:
            return
        rec.ev("steps_compared")
        rec.state(case["kind"], case["seed"], k)
        ok, err = close(F, f)
        if not rec.check(ok, "source", "step %d: the distributions differ by %.3g from the two half steps of source terms around the relaxation" % (k + 1, err), spec=spec.describe()):
            return
        # the collision conserves: the moments change by the source terms only
        w = ref.source(half, t - ref.dt)
        for c, i in ref.cons.items():
            ok, err = close(m[c], w[i])
            if not rec.check(ok, "source-balance", "step %d: %s differs by %.3g from its transport plus its source" % (k + 1, c, err), spec=spec.describe()):
                return


def space(case, rec):
    """A source term which is a function of the position."""
    X, rho = sp.symbols("X,rho")
    gen_ = ["numpy", "cython"][case["seed"] % 2]
    d = {
        "box": {"x": [0, 1], "label": -1},
        "space_step": 0.125,
        "scheme_velocity": 1.0,
        "schemes": [{"velocities": [0, 1, 2], "conserved_moments": rho, "polynomials": [1, X, X**2],
                     "relaxation_parameters": [0, 1.0, 1.0], "equilibrium": [rho, 0, rho / 2], "source_terms": {rho: X}}],
        "init": {rho: 1.0},
        "generator": gen_,
    }
    rec.ev("space_dependent")
    try:
        sol = pl.simulation_of(d)
        sol.one_time_step()
        got = np.array(sol.m[rho])
    except Exception as e:
        rec.check(False, "space-dependent-source-" + gen_, "a source term function of X fails: %s %s" % (type(e).__name__, str(e)[:100]))
        return
    x = (np.arange(8) + 0.5) * 0.125
    rec.check(np.allclose(got, 1 + 0.125 * x), "space-dependent-source-" + gen_, "a source term function of X gives %s instead of 1 + dt X" % got[:3])
