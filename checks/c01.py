"""The time step is the lattice Boltzmann scheme which the dictionary describes."""
import numpy as np
import sympy as sp

from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close


def feq_spec(rng, spec):
    """Replace the equilibrium by a function of the velocities."""
    for k, s in enumerate(spec.schemes):
        cons = list(s.cons_idx)
        allc = spec.consm
        a = [gen.rat(rng, -0.4, 0.4) for _ in allc]
        b = [gen.rat(rng, -0.3, 0.3) for _ in range(spec.dim)]
        V = [gen.velocity(spec.dim, q) for q in s.nums]
        # the equilibrium must give the conserved moments back: start from any
        # distribution and correct it along the columns of the inverse
        M = sp.Matrix(s.n, s.n, lambda i, j: sp.sympify(s.P[i]).subs({gen.XYZ[d]: V[j][d] * sp.nsimplify(spec.la) for d in range(spec.dim)}, simultaneous=True))
        raw = sp.Matrix([sum(ai * c for ai, c in zip(a, allc)) * (1 + sum(bi * vi for bi, vi in zip(b, v))) for v in V])
        mom = M * raw
        inv = M.inv()
        fix = sp.zeros(s.n, 1)
        for c, i in s.cons_idx.items():
            fix += inv[:, i] * (c - mom[i])
        table = {tuple(v): sp.expand(raw[j] + fix[j]) for j, v in enumerate(V)}
        dim = spec.dim

        def feq(v, shift, table=table, dim=dim):
            v = np.asarray(v).reshape((-1, dim))
            return sp.Matrix([table[tuple(int(c) for c in vi)] * shift / shift for vi in v])

        s.feq = [feq, [sp.Integer(2)]]
        s.eq = list((M * sp.Matrix([table[tuple(v)] for v in V])).applyfunc(sp.expand))
        for c, i in s.cons_idx.items():
            assert sp.simplify(s.eq[i] - c) == 0
    return spec


def make(case, rng):
    kind = case["kind"]
    if kind == "cython":
        return gen.random_spec(rng, dim=case["dim"], maxn=9 if case["dim"] == 2 else 7, nschemes=rng.choice([1, 1, 2]))
    if kind == "feq":
        spec = gen.random_spec(rng, dim=rng.choice([1, 2, 2]), maxn=9, params=False, simple=True, allow_M=False, cons_order="given")
        return feq_spec(rng, spec)
    if kind == "M":
        spec = gen.random_spec(rng, nschemes=1, maxn=9, params=False)
        spec.schemes[0].use_M = True
        return spec
    if kind == "coupled":
        return gen.random_spec(rng, dim=rng.choice([1, 2, 2]), nschemes=rng.choice([2, 3, 4]), maxn=7)
    if kind == "d3":
        return gen.random_spec(rng, dim=3, maxn=15, stencil_kind=rng.choice(['classic', 'perm']))
    if kind == "asym":
        return gen.random_spec(rng, dim=rng.choice([1, 2, 2, 3]), stencil_kind="asym", maxn=8, maxv=2)
    return gen.random_spec(rng)


def run(case, rec):
    rng = pl.rng_of(case)
    spec = make(case, rng)
    spec.generator = "cython" if case["kind"] == "cython" else "numpy"
    pl.vary(case, spec)
    ref = Ref(spec)
    if ref.cond > 1e7:
        rec.ev("skipped_ill_conditioned")
        return
    rec.sample(spec.describe())
    if spec.generator == "cython":
        rec.ev("compiled_backend_cases")
    with Sut(rec, "creation") as s:
        sol = pl.simulation(spec)
    if s.failed:
        return
    f = ref.init_f()
    ok, err = close(pl.get_F(sol, spec), f)
    rec.check(ok, "initial-state", "the initial distributions differ from M^-1 m_eq by %.3g" % err, spec=spec.describe())
    if rng.random() < 0.5:
        # an arbitrary state, far from equilibrium
        f = f + 0.05 * pl.random_F(spec, rng, 1.0)
        pl.set_F(sol, f)
        rec.ev("arbitrary_states")
    t = 0.0
    for k in range(4):
        f = ref.step(f, t)
        t += ref.dt
        dens = ref.f2m(f)
        if not pl.stable(ref, f, dens):
            rec.ev("skipped_unstable")
            break
        with Sut(rec, "time step") as s:
            sol.one_time_step()
            F = pl.get_F(sol, spec)
        if s.failed:
            return
        ok, err = close(F, f)
        rec.ev("steps_compared")
        rec.state(case["kind"], case["seed"], k)
        if not rec.check(ok, "step", "after %d step(s) the distributions differ by %.3g from the scheme of the dictionary" % (k + 1, err), spec=spec.describe()):
            return
        if rng.random() < 0.5:
            for c, i in ref.cons.items():
                ok, err = close(sol.m[c], dens[i])
                rec.check(ok, "moments", "moment %s read after %d step(s) differs by %.3g" % (c, k + 1, err), spec=spec.describe())
                rec.ev("moments_compared")
