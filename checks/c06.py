"""Schemes with relative velocity."""
import copy

import numpy as np
import sympy as sp

from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (8, 14), 2: (6, 9), 3: (5, 6)}


def make(case, rng):
    dim = rng.choice([1, 1, 2, 2, 2])
    if case["kind"] == "oracle" and case["gen"] == "numpy" and rng.random() < 0.15:
        dim = 3
    if case["kind"] == "three":
        dim = 3
    spec = gen.random_spec(
        rng,
        dim=dim,
        nschemes=1 if case["kind"] == "three" else rng.choice([1, 1, 2]),
        stencil_kind=rng.choice(["classic", "perm"]),
        maxn={1: 5, 2: 9 if rng.random() < 0.3 else 5, 3: 7}[dim],
        simple=rng.random() < (0.9 if case["kind"] == "three" else 0.6),
        relvel=True,
        mass=True,
        sources=case["kind"] == "source",
        params=False,
        sizes=SIZES,
    )
    spec.generator = case["gen"]
    return spec


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    spec = make(case, rng)
    if kind == "zero":
        spec.rel_vel = [rng.choice([0, 0.0, sp.Integer(0)]) for _ in range(spec.dim)]
    if kind == "equal_s":
        for s in spec.schemes:
            v = gen.number(rng, 0.3, 1.8)
            s.s = [v for _ in s.s]
    if kind == "base":
        import pylbm

        spec.algo = pylbm.algorithm.BaseAlgorithm
    plain = copy.copy(spec)
    if kind in ("zero", "equal_s"):
        plain.rel_vel = None
    ref = Ref(plain)
    if ref.cond > 1e6:
        return
    rec.sample(spec.describe())
    if spec.generator == "cython":
        rec.ev("compiled_backend_cases")
    with Sut(rec, "creation") as s:
        sol = pl.simulation(spec)
    if s.failed:
        return
    f = ref.init_f() + 0.05 * pl.random_F(spec, rng, 1.0)
    pl.set_F(sol, f)
    t = 0.0
    for k in range(3):
        fs = ref.stream(f)
        ms = ref.f2m(fs)
        nf = ref.collide(fs, t)
        if not pl.stable(ref, nf, ref.f2m(nf)):
            rec.ev("skipped_unstable")
            return
        if kind == "source":
            # whatever the relative velocity, the collision keeps the conserved
            # moments: they only see the two half steps of source terms
            m1 = ref.source(ref.source(ms, t), t)
            want = {c: m1[i] for c, i in ref.cons.items()}
        else:
            want = None
        with Sut(rec, "time step") as s:
            sol.one_time_step()
            F = pl.get_F(sol, spec)
            m = pl.get_m(sol, spec)
        if s.failed:
            return
        t += ref.dt
        rec.state(kind, case["gen"], case["seed"], k)
        if want is not None:
            rec.ev("source_steps")
            for c, w in want.items():
                ok, err = close(m[c], w)
                if not rec.check(ok, "source-balance", "with a relative velocity, %s changes by %.3g more than its source terms" % (c, err), spec=spec.describe()):
                    return
            if not np.all(np.isfinite(F)):
                rec.check(False, "non-finite", "the distributions are not finite where the reference is", spec=spec.describe())
                return
            f = F
            continue
        rec.ev("steps_compared")
        ok, err = close(F, nf)
        if not rec.check(ok, "relative-" + kind, "step %d differs by %.3g from the relative velocity scheme (%s)" % (k + 1, err, kind), spec=spec.describe()):
            return
        f = nf
