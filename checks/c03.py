"""The totals of the conserved quantities."""
import numpy as np
import sympy as sp

from vlib import gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref

SIZES = {1: (8, 20), 2: (7, 14), 3: (5, 8)}


def stable_scheme(rng, spec):
    """One conserved moment per scheme, equilibrium with positive weights, one relaxation parameter."""
    for sc in spec.schemes:
        c = next(c for c, i in sc.cons_idx.items() if i == 0)
        for o in list(sc.cons_idx):
            if o != c:
                del sc.cons_idx[o]
                del spec.init[o]
        sc.cons = [c]
    M = Ref(spec).M
    o = 0
    for sc in spec.schemes:
        w = np.array([rng.uniform(0.2, 1) for _ in range(sc.n)])
        w = w / w.sum()
        e = M[o : o + sc.n, o : o + sc.n] @ w
        o += sc.n
        om = gen.number(rng, 0.6, 1.7)
        sc.eq = [sc.cons[0] if i == 0 else round(float(e[i]), 6) * sc.cons[0] for i in range(sc.n)]
        sc.s = [0 if i == 0 else om for i in range(sc.n)]


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    closed = kind == "closed" or (kind in ("cython", "long") and rng.random() < 0.6)
    for attempt in range(8):
        spec = gen.random_spec(
            rng,
            dim=rng.choice([1, 2, 2, 2, 3]),
            stencil_kind=rng.choice(["classic", "perm", "sym"] if closed else ["classic", "perm", "sym", "asym"]),
            maxn=9,
            sizes=SIZES,
            mass=True,
            params=kind != "long",
            allow_M=kind != "long",
            sources=kind == "source",
            scale=0.03 if kind == "long" else 0.3,
        )
        if kind == "long":
            stable_scheme(rng, spec)
        spec.generator = "cython" if kind == "cython" else "numpy"
        pl.vary(case, spec)
        spec.labels, spec.geom, spec.walls = [-1] * (2 * spec.dim), [], {}
        if closed:
            walls.add_walls(rng, spec, methods=["BounceBack"], values=0, elements=0.8)
        ref = Ref(spec)
        fl = walls.fluid_of(spec)
        if ref.cond < 1e5 and not fl.ambiguous.any() and fl.fluid.any():
            break
    else:
        return
    desc = walls.describe(spec)
    rec.sample(desc)
    rec.ev("compiled_backend_cases", kind == "cython")
    with Sut(rec, "creation") as s:
        sol = pl.simulation_of(walls.to_dico(spec), sorder=spec.sorder)
    if s.failed:
        return
    # the quantities: sum_j P(v_j) f_j, for the conserved moments; through bounce-back walls, those which
    # are even
    quantities = []
    for c, i in ref.cons.items():
        row = ref.M[i]
        if spec.walls:
            sym = []
            for k in range(len(ref.ptr) - 1):
                vs = [tuple(v) for v in ref.V[ref.ptr[k] : ref.ptr[k + 1]]]
                sym += [ref.ptr[k] + vs.index(tuple(-a for a in v)) for v in vs]
            if np.abs(row - row[sym]).max() > 1e-12:
                continue
        quantities.append((c, row))
    if not quantities:
        return
    fluid = fl.fluid
    f = ref.init_f() + 0.02 * pl.random_F(spec, rng, 1.0)
    f[:, ~fluid] = np.nan
    pl.set_F(sol, f)
    nt = 60 if kind == "long" else 5
    f = f[:, fluid]
    m0 = {c: np.sum(row @ f) for c, row in quantities}
    for k in range(nt):
        with Sut(rec, "time step") as s:
            sol.one_time_step()
            F = pl.get_F(sol, spec)[:, fluid]
        if s.failed:
            return
        dens = ref.M @ F
        if not (np.all(np.isfinite(F)) and np.abs(dens).max() < 1e5):
            rec.ev("skipped_unstable")
            if k == 0:
                # unless the reference says that nothing diverges
                if not spec.walls and pl.stable(ref, ref.f2m(ref.step(f.reshape((ref.n,) + spec.N), 0.0))):
                    rec.check(False, "non-finite", "the distributions are not finite after a step", spec=desc)
            rec.ev("long_runs", kind == "long" and k > 30)
            return
        if kind == "source":
            # the total changes by the two half steps, evaluated from the moments before and after the collision,
            # known from the distributions just streamed
            ms = ref.f2m(ref.stream(f.reshape((ref.n,) + spec.N)))
            m1 = ref.source(ref.source(ms, sol.t - ref.dt), sol.t - ref.dt)
            if not pl.stable(ref, m1):
                return
            want = {c: np.sum(m1[ref.cons[c]]) for c, _ in quantities}
        else:
            want = m0
        for c, row in quantities:
            tot = np.sum(row @ F)
            scale = max(1.0, np.sum(np.abs(row) @ np.abs(F)))
            rec.ev("totals")
            rec.ev("walled_totals", bool(spec.walls))
            rec.state(case["seed"], kind, spec.dim, bool(spec.walls), str(c), k)
            if not rec.check(abs(tot - want[c]) <= 1e-10 * scale * (k + 1), "conservation", "after %d step(s) the total of %s is %.12g instead of %.12g (walls: %s)" % (k + 1, c, tot, want[c], spec.labels), spec=desc):
                return
            if rng.random() < 0.2:
                got = np.sum(np.array(sol.m[c])[fluid])
                if not rec.check(abs(got - tot) <= 1e-10 * scale, "conservation-m", "the total of the moment %s is %.12g, the one of its distributions is %.12g" % (c, got, tot), spec=desc):
                    return
        f = F
    rec.ev("long_runs", kind == "long")
