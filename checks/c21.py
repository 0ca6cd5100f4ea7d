"""Symbolic parameters against numbers."""
import numpy as np
import sympy as sp

from vlib import equiv, gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close, resolve

STEPS = 3
CONS = ["m", "f", "dt", "t_", "lambda", "E", "S", "N", "I", "beta", "gamma", "rho_0", "nx", "k", "Q", "mu", "pi_", "x0", "i", "if", "F", "xx", "double", "range"]
PARS = ["lambda", "mu", "eta", "la", "c_0", "S", "E", "dt", "nx", "m", "f", "i", "tau1", "gamma", "Cs", "s_q", "def", "g", "rho0", "alpha", "int", "dx", "t0"]


def numeric(spec):
    """The same with numbers only."""
    s = equiv.clone(spec)
    p = spec.params
    for x in s.schemes:
        x.P = [resolve(q, p) for q in x.P]
        x.eq = [resolve(q, p) for q in x.eq]
        x.s = [v if not isinstance(v, sp.Expr) else resolve(v, p) for v in x.s]
        x.source = {c: resolve(e, p) for c, e in x.source.items()}
    if s.rel_vel is not None:
        s.rel_vel = [resolve(u, p) for u in s.rel_vel]
    if s.la_symbol is not None:
        s.la = float(resolve(s.la_symbol, p))
        s.la_symbol = None
    s.params = {}
    return s


def parametrize(rng, spec, chain=True):
    """Replace numbers by parameters: everywhere, with parameters of parameters."""
    s = equiv.clone(spec)
    names = [sp.Symbol(n) for n in rng.sample(PARS, len(PARS)) if sp.Symbol(n) not in spec.consm]
    new = {}
    kinds = rng.sample(["la", "s", "s", "eq", "source", "poly", "rel"], 5) + ["s"]

    def symbol(v):
        """A symbol of value v."""
        if not names:
            return v
        sy = names.pop()
        r = rng.random()
        if chain and r < 0.35 and len(names) > 2 and float(v) != 0:
            a = names.pop()
            form = rng.randint(0, 2)
            if form == 0:
                new[a] = float(1 / sp.sympify(v))
                new[sy] = 1 / a
            elif form == 1:
                b = names.pop()
                new[b] = rng.choice([2, 0.25, sp.Rational(3, 2)])
                new[a] = sp.sympify(v) / new[b] if not isinstance(v, float) else float(v / float(new[b]))
                new[sy] = a * b
            else:
                # the same relation as for a viscosity
                b = names.pop()
                new[b] = 0.5
                new[a] = float(1 / sp.sympify(v) - sp.Rational(1, 2))
                new[sy] = 1 / (b + a)
        else:
            new[sy] = v
        return sy

    if "la" in kinds and not any(x.use_M for x in s.schemes):
        s.la_symbol = symbol(s.la)
        if not isinstance(s.la_symbol, sp.Symbol):
            s.la_symbol = None
    for x in s.schemes:
        keep = set(x.cons_idx.values())
        for i in range(x.n):
            if "s" in kinds and rng.random() < 0.5 and x.s[i] != 0:
                x.s[i] = symbol(x.s[i]) if rng.random() < 0.7 else 1 / (sp.Rational(1, 2) + symbol(float(1 / sp.sympify(x.s[i]) - sp.Rational(1, 2))))
            if "eq" in kinds and i not in keep and rng.random() < 0.5:
                v = rng.choice([2, 0.5, sp.Rational(1, 4)])
                y = symbol(v)
                x.eq[i] = sp.expand(sp.sympify(x.eq[i]) / sp.nsimplify(v)) * y
            if "poly" in kinds and i not in keep and rng.random() < 0.15:
                v = rng.choice([2, sp.Rational(1, 2)])
                x.P[i] = sp.sympify(x.P[i]) / v * symbol(v)
        if "source" in kinds:
            for c in x.source:
                v = rng.choice([2, 0.5])
                x.source[c] = sp.sympify(x.source[c]) / sp.nsimplify(v) * symbol(v)
    if "rel" in kinds and s.rel_vel is not None:
        v = rng.choice([2, 0.5])
        s.rel_vel[0] = sp.sympify(s.rel_vel[0]) / sp.nsimplify(v) * symbol(v)
    if chain and rng.random() < 0.5:
        # long chains
        for a in list(new):
            if isinstance(new[a], sp.Expr) and new[a].free_symbols or rng.random() < 0.5:
                continue
            for _ in range(rng.randint(2, 5)):
                b = sp.Symbol("%s_%d" % (rng.choice(["chain", "a", "z", "K"]), len(new)))
                v = new[a]
                new[a], new[b] = rng.choice([(b, v), (2 * b, v / 2), (b / 2, 2 * v), (-b, -v)])
                a = b
    k = list(new)
    r = rng.random()
    if r < 0.3:
        k.reverse()
    elif r < 0.8:
        rng.shuffle(k)
    s.params = {a: new[a] for a in k}
    return s


def rename(rng, spec):
    """Other names for the conserved moments."""
    s = equiv.clone(spec)
    names = rng.sample([n for n in CONS if sp.Symbol(n) not in spec.params], len(spec.consm))
    sub = {c: sp.Symbol(n) for c, n in zip(spec.consm, names)}
    f = lambda e: sp.sympify(e).subs(sub, simultaneous=True)
    for x in s.schemes:
        x.eq = [f(e) for e in x.eq]
        x.cons = [sub[c] for c in x.cons]
        x.cons_idx = {sub[c]: i for c, i in x.cons_idx.items()}
        x.source = {sub[c]: f(e) for c, e in x.source.items()}
    if s.rel_vel is not None:
        s.rel_vel = [f(u) for u in s.rel_vel]
    s.init = {sub[c]: v for c, v in s.init.items()}
    return s, sub


def run(case, rec):
    rng = pl.rng_of(case)
    cython = case["gen"] == "cython"
    for _ in range(20):
        spec = gen.random_spec(
            rng, dim=case["dim"], stencil_kind=rng.choice(["classic", "perm", "sym"]), maxn=9 if not cython else 5, sources=rng.random() < (0.6 if case["kind"] == "names" else 0.3),
            relvel=rng.random() < 0.2, params=False, allow_M=False, scale=0.15, maxv=2, sizes={1: (6, 14), 2: (5, 9), 3: (4, 5)}, simple=rng.random() < 0.5,
        )
        equiv.no_walls(spec)
        if rng.random() < 0.4 and case["kind"] != "names" and equiv.symmetric_stencils(spec) and not equiv.with_sides(rng, spec):
            continue
        if Ref(spec).cond < 1e5 and not equiv.degenerate(spec):
            break
    else:
        rec.ev("skipped")
        return
    for s in spec.schemes:
        s.s = [0 if i in s.cons_idx.values() and spec.rel_vel is not None else v for i, v in enumerate(s.s)]
    spec.generator = case["gen"]
    {"symbolic": symbolic, "names": renamed, "late": late}[case["kind"]](case, rec, rng, spec)


def symbolic(case, rec, rng, spec):
    other = parametrize(rng, spec)
    base = numeric(other)
    desc = walls.describe(other)
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        with np.errstate(all="ignore"):
            a, fluid, sol = equiv.run(base, STEPS)
            b, _, sol2 = equiv.run(other, STEPS)
            ta, tb = (sol.t, sol.dt), (sol2.t, sol2.dt)
    if s.failed:
        return
    rec.check(np.allclose(ta, tb, rtol=1e-12), "time", "the times are %s and %s" % (ta, tb), **desc)
    if equiv.compare(rec, a, b, fluid, lambda r: r, lambda c: c, lambda x: x, "symbolic", "parameters instead of numbers", **desc):
        rec.ev("pairs")
        rec.ev("parameters", len(other.params))
        rec.ev("chains", sum(isinstance(v, sp.Expr) and bool(v.free_symbols) for v in other.params.values()))
        rec.ev("velocity_symbolic", other.la_symbol is not None)
        rec.state("symbolic", spec.dim, len(other.params), other.la_symbol is not None, spec.rel_vel is not None, bool(spec.walls), len(spec.schemes))


def renamed(case, rec, rng, spec):
    other, sub = rename(rng, spec)
    if rng.random() < 0.5:
        other = parametrize(rng, other)
    desc = walls.describe(other)
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        with np.errstate(all="ignore"):
            a, fluid, _ = equiv.run(spec, STEPS)
            b, _, _ = equiv.run(other, STEPS)
    if s.failed:
        return
    if equiv.compare(rec, a, b, fluid, lambda r: r, lambda c: sub[c], lambda x: x, "names", "other names %s" % sub, **desc):
        rec.ev("pairs")
        rec.ev("renamed")
        rec.state("names", sorted(map(str, sub.values())))


def late(case, rec, rng, spec):
    """Parameters given after the creation, and changed in time."""
    other = parametrize(rng, spec, chain=False)
    bad = {"dt", "nx", "m", "f", "i", "def", "int", "t0", "E", "S"}
    # names which are variables of the generated code are left in the dictionary
    extra = {y: float(v) for y, v in other.params.items() if str(y) not in bad and rng.random() < 0.7 and y != other.la_symbol}
    if not extra:
        rec.ev("skipped")
        return
    full = dict(other.params)
    other.params = {y: v for y, v in other.params.items() if y not in extra}
    desc = walls.describe(other)
    desc["extra"] = {str(k): v for k, v in extra.items()}
    rec.sample(desc)

    def at(values):
        s = equiv.clone(other)
        s.params = dict(full)
        s.params.update(values)
        return numeric(s)

    with Sut(rec, "simulation") as s:
        sol = pl.simulation_of(walls.to_dico(other), initialize=False)
        sol.extra_parameters = dict(extra)
        sol.one_time_step()
    if s.failed:
        return
    values = dict(extra)
    vm = list(sol.domain.stencil.vmax)
    fluid = (sol.domain.in_or_out == sol.domain.valin)[tuple(slice(v, v + n) for v, n in zip(vm, spec.N))]
    state = None
    for k in range(3):
        with Sut(rec, "reference") as s:
            with np.errstate(all="ignore"):
                base = pl.simulation_of(walls.to_dico(at(values)))
                if state is not None:
                    F, t = state
                    for j in range(F.shape[0]):
                        base.F[j][...] = F[j]
                    base.t = t
                base.one_time_step()
                A = pl.get_F(base, spec)
        if s.failed:
            return
        B = pl.get_F(sol, spec)
        if not np.all(np.isfinite(A[:, fluid])) or np.abs(A[:, fluid]).max() > 1e4:
            rec.ev("skipped_unstable")
            return
        ok, err = close(A[:, fluid], B[:, fluid])
        rec.ev("steps_compared")
        rec.ev("values_compared", A[:, fluid].size)
        if not rec.check(ok, "late", "with extra_parameters %s, the states differ by %.3g after %d step(s)" % (values, err, k + 1), **desc):
            return
        rec.ev("late_steps")
        state = (B, sol.t)
        if any(w["value"] is not None for w in spec.walls.values()):
            # the imposed values are computed once
            break
        values = {y: v * rng.uniform(0.8, 1.2) for y, v in values.items()}
        sol.extra_parameters = dict(values)
        with Sut(rec, "simulation") as s:
            sol.one_time_step()
        if s.failed:
            return
    rec.ev("pairs")
    rec.ev("late")
    rec.state("late", spec.dim, len(extra), bool(spec.walls), spec.rel_vel is not None)
