"""Moments and distributions are two views of one state."""
import numpy as np
import sympy as sp

from vlib import gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

SIZES = {1: (6, 14), 2: (5, 9), 3: (4, 6)}


def numeric(mat, subs):
    return np.array(sp.Matrix(mat).subs(subs).subs(subs).evalf(17), dtype=float)


def run(case, rec):
    rng = pl.rng_of(case)
    kind = case["kind"]
    for attempt in range(6):
        spec = gen.random_spec(rng, nschemes=rng.choice([2, 3]) if kind == "coupled" else None, maxn=7 if kind in ("cython", "coupled") else 9, sizes=SIZES)
        ref = Ref(spec)
        if ref.cond < 1e5:
            break
    else:
        return
    spec.generator = "cython" if kind == "cython" else "numpy"
    rec.sample(spec.describe())
    rec.ev("compiled_backend_cases", kind == "cython")
    order = None
    if rng.random() < 0.3:
        order = rng.sample(range(spec.dim + 1), spec.dim + 1)
    with Sut(rec, "creation") as s:
        sol = pl.simulation(spec, sorder=order)
        sch = sol.scheme
        subs = [(k, v) for k, v in sch.param.items()]
        M, iM = numeric(sch.M, subs), numeric(sch.invM, subs)
        nM, niM = numeric(sch.M_no_swap, subs), numeric(sch.invM_no_swap, subs)
        eq_ns, s_ns = list(sch.EQ_no_swap), list(sch.s_no_swap)
    if s.failed:
        return
    desc = dict(spec=spec.describe(), sorder=order)
    rec.ev("matrices")
    rec.state("scheme", kind, case["seed"])
    ok, err = close(nM, ref.M)
    rec.check(ok, "matrix", "the matrix of moments differs by %.3g from the polynomials at the velocities" % err, **desc)
    ok, err = close(niM, ref.invM, 1e-8)
    rec.check(ok, "inverse", "the inverse matrix differs by %.3g" % err, **desc)
    ok, err = close(M @ iM, np.eye(ref.n), 1e-8)
    rec.check(ok, "inverse", "M times its inverse is not the identity", **desc)
    ok, err = close([float(gen_num(v, subs)) for v in s_ns], ref.s)
    rec.check(ok, "relaxation", "the relaxation parameters are %s instead of %s" % (s_ns, ref.s), **desc)
    # the moments as they are stored: the conserved ones first
    perm = [int(np.argmin(np.abs(ref.M - M[i]).max(axis=1))) for i in range(ref.n)]
    if not rec.check(sorted(perm) == list(range(ref.n)) and np.allclose(M, ref.M[perm], atol=1e-9), "permutation", "the stored moments are not those of the scheme", **desc):
        return
    for c, i in ref.cons.items():
        if not rec.check(sch.consm[c] < ref.n and perm[sch.consm[c]] == i, "conserved-index", "the index of %s is %s" % (c, sch.consm.get(c)), **desc):
            return
    rec.check(sorted(sch.consm.values()) == list(range(len(spec.consm))), "conserved-first", "the conserved moments are not the first ones: %s" % sch.consm, **desc)
    if kind == "user":
        return user_arrays(rec, rng, spec, ref, sol, perm, desc, order)

    f = ref.init_f()
    m = ref.f2m(f)
    valid = True  # the model of the moments
    prev = "init"
    hist = []
    mean = np.abs(f).max()
    t = 0.0
    for k in range(14):
        op = rng.choice(["step", "step", "read_m", "read_sym", "read_halo", "write_F", "write_m", "write_m_eq", "f2m", "eq", "read_F"])
        hist.append(op)
        with Sut(rec, "operation %s" % hist) as s:
            if op == "step":
                f2 = ref.step(f, t)
                if not pl.stable(ref, f2, ref.f2m(f2)):
                    rec.ev("skipped_unstable")
                    return
                # the halo is that of a periodic state
                sol.one_time_step()
                f, valid = f2, False
                t += ref.dt
            elif op == "write_F":
                q = rng.randrange(ref.n)
                v = f[q] + 0.05 * mean * np.random.default_rng(rng.randrange(10**6)).normal(size=f[q].shape)
                full = np.pad(v, [(a, a) for a in vmax(sol)], mode="wrap")
                sol.F_halo[q] = full
                f = f.copy()
                f[q] = v
                valid = False
            elif op in ("write_m", "write_m_eq"):
                c = rng.choice(spec.consm)
                if not valid:
                    m, valid = ref.f2m(f), True
                i = ref.cons[c]
                v = m[i] + 0.05 * np.random.default_rng(rng.randrange(10**6)).normal(size=m[i].shape)
                full = np.pad(v, [(a, a) for a in vmax(sol)], mode="wrap")
                sol.m_halo[rng.choice([c, sch.consm[c]])] = full
                m = m.copy()
                m[i] = v
                if op == "write_m_eq" and rng.random() < 0.7:
                    # the other moments follow
                    for d, j in ref.cons.items():
                        ok, err = close(sol.m[d], m[j])
                        rec.ev("reads_compared")
                        if not rec.check(ok, "write-moment", "after %s, the moment %s differs by %.3g" % (hist, d, err), **desc):
                            return
                if op == "write_m_eq":
                    sol.equilibrium()
                    m = ref.equilibrium(m)
                sol.m2f()
                f = ref.m2f(m)
            elif op == "f2m":
                sol.f2m()
                m, valid = ref.f2m(f), True
            elif op == "eq":
                sol.f2m()
                sol.equilibrium()
                m = ref.equilibrium(ref.f2m(f))
                for i in rng.sample(range(ref.n), min(3, ref.n)):
                    ok, err = close(sol.m[i], m[perm[i]])
                    rec.ev("reads_compared")
                    if not rec.check(ok, "equilibrium", "after %s, the moment %d differs by %.3g from its equilibrium" % (hist, i, err), **desc):
                        return
                sol.m2f()
                f = ref.m2f(m)
                valid = True
            if op in ("read_m", "read_sym", "read_halo") or rng.random() < 0.25:
                if not valid:
                    m, valid = ref.f2m(f), True
                if op == "read_sym":
                    items = [(c, i) for c, i in ref.cons.items()]
                else:
                    items = [(i, perm[i]) for i in range(ref.n)]
                rng.shuffle(items)
                for key, i in items[:5]:
                    if op == "read_halo":
                        a = np.array(sol.m_halo[key])
                        vm = vmax(sol)
                        a = a[tuple(slice(b, a.shape[d] - b) for d, b in enumerate(vm))]
                    else:
                        a = np.array(sol.m[key])
                    ok, err = close(a, m[i])
                    rec.ev("reads_compared")
                    if not rec.check(ok, "moments", "after %s, the moment %s differs by %.3g from that of the distributions" % (hist, key, err), **desc):
                        return
            ok, err = close(pl.get_F(sol, spec), f)
            rec.ev("reads_compared")
            if not rec.check(ok, "distributions", "after %s, the distributions differ by %.3g" % (hist, err), **desc):
                return
        if s.failed:
            return
        rec.ev("operations")
        rec.state(prev, op, spec.generator)
        prev = op
        if not pl.stable(ref, f, m):
            return


def gen_num(v, subs):
    return sp.sympify(v).subs(subs).subs(subs)


def vmax(sol):
    return [int(v) for v in sol.domain.stencil.vmax]


def user_arrays(rec, rng, spec, ref, sol, perm, desc, order):
    """The functions applied on the arrays of the user."""
    from pylbm.storage import Array

    n = [rng.randint(3, 9) if d == 0 else rng.choice([1, 2, 5]) for d in range(spec.dim)]
    r = np.random.default_rng(rng.randrange(10**6))
    keep = pl.get_F(sol, spec)
    with Sut(rec, "user arrays") as s:
        m = Array(spec.nv, n, [0] * spec.dim, sol.container.sorder)
        f = Array(spec.nv, n, [0] * spec.dim, sol.container.sorder)
        m.set_conserved_moments(sol.scheme.consm)
        f.set_conserved_moments(sol.scheme.consm)
        want = np.zeros([spec.nv] + n)
        for c, i in ref.cons.items():
            v = 1 + 0.1 * r.normal(size=n)
            want[i] = v
            m[c] = v
        want = ref.equilibrium(want)
        sol.equilibrium(m)
        for i in range(spec.nv):
            ok, err = close(m[i], want[perm[i]])
            rec.ev("reads_compared")
            rec.check(ok, "user-equilibrium", "the equilibrium of the moments of the user differs by %.3g" % err, **desc)
        sol.m2f(m, f)
        wf = ref.m2f(want)
        for k in range(spec.nv):
            ok, err = close(f[k], wf[k])
            rec.ev("reads_compared")
            rec.check(ok, "user-m2f", "the distributions of the moments of the user differ by %.3g" % err, **desc)
        ok, err = close(pl.get_F(sol, spec), keep)
        rec.check(ok, "user-arrays", "the simulation has changed", **desc)
        rec.ev("operations", 2)
