"""The same dictionary written in another order."""
import random

import numpy as np
import sympy as sp

from vlib import equiv, gen, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref

STEPS = 3


def shuffled(rng, d):
    k = list(d)
    rng.shuffle(k)
    return {q: d[q] for q in k}


def reorder(rng, spec, what):
    s = equiv.clone(spec)
    order = list(range(len(s.schemes)))
    for x in s.schemes:
        n = x.n
        if "velocities" in what:
            rng.shuffle(x.nums)
        if "moments" in what:
            p = rng.sample(range(n), n)
            x.P, x.eq, x.s = [[a[i] for i in p] for a in (x.P, x.eq, x.s)]
            x.cons_idx = {c: p.index(i) for c, i in x.cons_idx.items()}
        if "conserved" in what:
            rng.shuffle(x.cons)
        if "entries" in what:
            x.source = shuffled(rng, x.source)
        if "writing" in what:
            f = rng.choice([sp.expand, sp.factor, lambda e: e])
            x.P = [f(sp.sympify(p)) for p in x.P]
            x.eq = [f(sp.sympify(e)) for e in x.eq]
    if "schemes" in what:
        rng.shuffle(order)
        s.schemes = [s.schemes[i] for i in order]
        for w in s.walls.values():
            w["methods"] = [w["methods"][i] for i in order]
    if "entries" in what:
        s.init = shuffled(rng, s.init)
        s.params = shuffled(rng, s.params)
        s.walls = shuffled(rng, s.walls)
        for w in s.walls.values():
            w["order"] = rng.sample(range(len(w["methods"])), len(w["methods"]))
        s.shuffle = rng.random()
    return s, order


def run(case, rec):
    rng = pl.rng_of(case)
    for _ in range(10):
        spec = gen.random_spec(
            rng, dim=case.get("dim"), stencil_kind=rng.choice(["classic", "perm", "sym", "asym"]), maxn=6 if case["kind"] == "cython" or case["kind"] == "walls" and case["dim"] == 3 else 9,
            sources=rng.random() < 0.3, relvel=rng.random() < 0.2, allow_M=rng.random() < 0.3, scale=0.15, maxv=2, sizes={1: (6, 14), 2: (5, 9), 3: (4, 5)},
            nschemes=rng.choice([2, 2, 3] if case["dim"] < 3 else [2]) if case["kind"] == "walls" else None,
        )
        equiv.no_walls(spec)
        if case["kind"] == "walls" and not equiv.symmetric_stencils(spec):
            continue
        if (case["kind"] == "walls" or rng.random() < 0.5) and equiv.symmetric_stencils(spec):
            if not equiv.with_sides(rng, spec):
                continue
        ref = Ref(spec)
        if ref.cond < 1e5 and not equiv.degenerate(spec):
            break
    else:
        rec.ev("skipped")
        return
    if spec.rel_vel is not None:
        for s in spec.schemes:
            s.s = [0 if i in s.cons_idx.values() else v for i, v in enumerate(s.s)]
    spec.generator = "cython" if case["kind"] == "cython" else "numpy"
    what = {w for w in ("velocities", "moments", "conserved", "schemes", "entries", "writing") if rng.random() < 0.45} or {rng.choice(["conserved", "moments"])}
    if case["kind"] == "walls":
        what.add("entries")
    other, order = reorder(rng, spec, what)
    if spec.generator == "cython" and all(float(v) == 0 for v in ref.s):
        return
    desc = walls.describe(spec)
    desc["changes"] = sorted(what)
    rec.sample(desc)
    with Sut(rec, "simulation") as s:
        with np.errstate(all="ignore"):
            a, fluid, _ = equiv.run(spec, STEPS)
            b, fluid2, _ = equiv.run(other, STEPS)
    if s.failed:
        return
    rec.check(np.array_equal(fluid, fluid2), "geometry", "the fluid cells change with the order of the dictionary", **desc)
    n = equiv.compare(
        rec, a, b, fluid, lambda r: (order.index(r[0]), r[1]), lambda c: c, lambda x: x, "order", "other order (%s)" % ", ".join(sorted(what)), **desc
    )
    if n:
        rec.ev("pairs")
        rec.ev("with_walls", bool(spec.walls))
        rec.ev("methods_exchanged", "entries" in what and any(len(set(w["methods"])) > 1 for w in spec.walls.values()))
        rec.ev("with_sources", any(x.source for x in spec.schemes))
        for w in what:
            rec.ev("changed_" + w)
        rec.state(spec.dim, sorted(what), len(spec.schemes), len(spec.consm), bool(spec.walls), spec.rel_vel is not None)
