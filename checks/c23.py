"""The phases of a time step called one by one."""
import numpy as np
import sympy as sp

import pylbm
from vlib import gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (6, 14), 2: (5, 9), 3: (5, 6)}


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    if kind == "relvel":
        return relvel(rec)
    wl = kind == "walls" or (kind == "cython" and case["seed"] % 2)
    for attempt in range(8):
        spec = gen.random_spec(rng, dim=rng.choice([1, 2, 2, 2, 3]), stencil_kind=rng.choice(["classic", "perm", "sym"]), maxn=7, sizes=SIZES, sources=rng.random() < 0.5, allow_M=False)
        spec.generator = "cython" if kind == "cython" else "numpy"
        spec.labels, spec.geom, spec.walls = [-1] * (2 * spec.dim), [], {}
        if wl:
            walls.add_walls(rng, spec, methods=["BounceBack", "AntiBounceBack", "Neumann"])
        ref = Ref(spec)
        fl = walls.fluid_of(spec)
        if ref.cond < 1e5 and not fl.ambiguous.any() and fl.fluid.any():
            break
    else:
        return
    desc = walls.describe(spec)
    rec.sample(desc)
    rec.ev("compiled_backend_cases", kind == "cython")
    rec.ev("with_sources", bool(ref.src))
    rec.ev("with_walls", bool(spec.walls))
    order = rng.sample(range(spec.dim + 1), spec.dim + 1) if rng.random() < 0.3 else None
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec), sorder=order)
        dom = sol.domain
        rw = walls.RefWalls(spec, ref, fl, dom)
    if s.failed:
        return
    fluid = fl.fluid
    f = ref.init_f() + 0.03 * pl.random_F(spec, rng, 1.0)
    pl.set_F(sol, f)
    t = 0.0

    def compare(got, want, what):
        ok, err = close(got[:, fluid], want[:, fluid])
        rec.ev("phases")
        return rec.check(ok, what, "after the phase %s, the %s differ by %.3g" % (what, "moments" if what in ("f2m", "relaxation", "source_term") else "distributions", err), spec=desc)

    with Sut(rec, "phases") as s:
        M = None
        for k in range(2):
            fs = rw.stream(f, t)
            full = np.where(np.isfinite(fs), fs, 0.0)
            r = rw.ref.collide(full, t)
            if not np.isfinite(r[:, fluid]).all():
                rec.ev("skipped_unstable")
                return
            f1 = np.where(np.isfinite(r), r, 0.0)
            if not pl.stable(ref, f1[:, fluid], ref.f2m(f1)[:, fluid], ref.source(ref.f2m(full), t)[:, fluid]):
                rec.ev("skipped_unstable")
                return
            sol.boundary_condition()
            sol.transport()
            if not compare(pl.get_F(sol, spec), fs, "transport"):
                return
            sol.f2m()
            perm = order_of(sol, ref)
            m = ref.f2m(full)
            read = lambda: np.stack([np.array(sol.m[int(np.where(np.array(perm) == i)[0][0])]) for i in range(ref.n)])
            if not compare(read(), m, "f2m"):
                return
            if ref.src:
                sol.source_term(0.5)
                m = ref.source(m, t)
                if not compare(read(), m, "source_term"):
                    return
            sol.relaxation()
            sv = np.array(ref.s).reshape((-1,) + (1,) * spec.dim)
            m = (1 - sv) * m + sv * ref.equilibrium(m)
            if not compare(read(), m, "relaxation"):
                return
            if ref.src:
                sol.source_term(0.5)
                m = ref.source(m, t)
            sol.m2f()
            F = pl.get_F(sol, spec)
            if not compare(F, f1, "m2f"):
                return
            rec.ev("steps_compared")
            rec.state(spec.generator, spec.dim, bool(spec.walls), bool(ref.src), order is None, k)
            f = f1
            t += ref.dt
            sol.t += sol.dt
        # one whole step from there, and a whole step of source terms
        want = rw.step(f, t)
        if pl.stable(ref, want[:, fluid]):
            sol.one_time_step()
            compare(pl.get_F(sol, spec), want, "one_time_step")
            rec.ev("steps_compared")
            if ref.src:
                sol.f2m()
                m = ref.f2m(np.where(np.isfinite(want), want, 0.0))
                frac = rng.choice([1.0, 0.25])
                if rng.random() < 0.5:
                    sol.source_term(fraction_of_time_step=frac)
                else:
                    frac = 1.0
                    sol.source_term()
                compare(read(), ref.source(m, sol.t, frac), "source_term")


def order_of(sol, ref):
    sch = sol.scheme
    subs = list(sch.param.items())
    M = np.array(sp.Matrix(sch.M).subs(subs).subs(subs).evalf(17), dtype=float)
    return [int(np.argmin(np.abs(ref.M - M[i]).max(axis=1))) for i in range(ref.n)]


def relvel(rec):
    """The relaxation phase of a scheme with relative velocity."""
    X, rho = sp.symbols("X,rho")
    out = []
    for phases in (False, True):
        d = {
            "box": {"x": [0, 1], "label": -1},
            "space_step": 0.125,
            "scheme_velocity": 1.0,
            "schemes": [{"velocities": [0, 1, 2], "conserved_moments": rho, "polynomials": [1, X, X**2],
                         "relaxation_parameters": [0, 1.2, 1.7], "equilibrium": [rho, rho / 5, rho / 2]}],
            "relative_velocity": [0.3],
            "init": {rho: (lambda x: 1 + 0.2 * np.cos(6 * x))},
            "generator": "numpy",
        }
        with Sut(rec, "relative velocity") as s:
            sol = pylbm.Simulation(d)
            for k in range(2):
                if phases:
                    sol.boundary_condition()
                    sol.transport()
                    sol.f2m()
                    sol.relaxation()
                    sol.m2f()
                else:
                    sol.one_time_step()
            out.append(np.array([sol.F[k] for k in range(3)]))
        if s.failed:
            return
    rec.check(close(*out)[0], "relaxation-relative-velocity", "the relaxation phase ignores the relative velocity: the distributions differ by %.3g from one_time_step" % np.abs(out[0] - out[1]).max())
