"""Numbering of the velocities and tables of the stencils."""
import numpy as np

import pylbm
from pylbm.stencil import Velocity
from vlib import gen, pl
from vlib.core import Sut


def comps(v, dim):
    return tuple(int(c) for c in (v.vx, v.vy, v.vz)[:dim])


def run(case, rec):
    rng = pl.rng_of(case)
    if case["kind"] == "range":
        dim = case["dim"]
        seen = {}
        for num in range(case["from"], case["to"]):
            want = gen.velocity(dim, num)
            with Sut(rec, "velocity") as s:
                v = Velocity(dim=dim, num=num)
                got = comps(v, dim)
                back = Velocity(**dict(zip(("vx", "vy", "vz"), want))).num
                sym = v.get_symmetric()
                gs = comps(sym, dim)
                ax = rng.randrange(dim)
                ga = comps(v.get_symmetric(axis=ax), dim)
                snum = sym.num
            if s.failed:
                return
            rec.ev("velocities")
            rec.state(dim, want)
            rec.check(got == want, "numbering", "velocity %d in dimension %d is %s instead of %s" % (num, dim, got, want))
            rec.check(back == num, "numbering-inverse", "the number of %s is %s instead of %d" % (want, back, num))
            rec.check(got not in seen, "numbering-unique", "%s has two numbers" % (got,))
            seen[got] = num
            rec.check(gs == tuple(-c for c in want), "symmetric", "the symmetric of %s is %s" % (want, gs))
            rec.check(Velocity(dim=dim, num=snum).v == list(gs), "symmetric-number", "the number of the symmetric of %s" % (want,))
            wa = tuple(c if k == ax else -c for k, c in enumerate(want))
            rec.check(ga == wa, "axis", "the symmetric of %s with respect to axis %d is %s instead of %s" % (want, ax, ga, wa))
            if rec.violations:
                return
        return
    dim = rng.choice([1, 2, 2, 3])
    ns = rng.randint(1, 4)
    st = []
    for _ in range(ns):
        k = rng.choice(["classic", "perm", "sym", "asym", "any"])
        if k == "any":
            st.append(rng.sample(range({1: 12, 2: 60, 3: 130}[dim]), rng.randint(1, 9)))
        else:
            st.append(gen.random_stencil(rng, dim, k, {1: 9, 2: 17, 3: 27}[dim], 2))
    rec.sample({"dim": dim, "stencils": st})
    dico = {"dim": dim, "schemes": [{"velocities": list(s)} for s in st]}
    V = [[gen.velocity(dim, q) for q in s] for s in st]
    with Sut(rec, "stencil") as s:
        S = pylbm.Stencil(dico)
        d = dict(stencils=st, dim=dim)
        rec.ev("stencils")
        rec.state(dim, st)
        rec.check(S.dim == dim and S.nstencils == ns and len(S) == ns, "counts", "dim, number of stencils", **d)
        rec.check(list(S.nv) == [len(q) for q in st], "nv", "nv is %s" % (S.nv,), **d)
        ptr = [0]
        for q in st:
            ptr.append(ptr[-1] + len(q))
        rec.check(list(S.nv_ptr) == ptr, "nv_ptr", "nv_ptr is %s instead of %s" % (S.nv_ptr, ptr), **d)
        u = sorted({q for s_ in st for q in s_})
        rec.check([int(q) for q in S.unum] == u and S.unvtot == len(u), "unique", "the unique velocities are %s instead of %s" % (list(S.unum), u), **d)
        names = ["vx", "vy", "vz"][:dim]
        for i, q in enumerate(u):
            w = gen.velocity(dim, q)
            rec.check(int(S.unum2index[q]) == i, "unum2index", "index of the velocity %d" % q, **d)
            rec.check(comps(S.unique_velocities[i], dim) == w, "unique-components", "components of the velocity %d" % q, **d)
            rec.check(tuple(int(getattr(S, "u" + nme)[i]) for nme in names) == w, "unique-arrays", "uvx, uvy, uvz of the velocity %d" % q, **d)
        allv = S.get_all_velocities()
        rec.check(np.array_equal(allv, np.array([w for s_ in V for w in s_])), "all-velocities", "get_all_velocities", **d)
        for k in range(ns):
            rec.check([int(q) for q in S.num[k]] == list(st[k]), "num", "num[%d] is %s instead of %s" % (k, list(S.num[k]), st[k]), **d)
            rec.check([tuple(int(getattr(S, nme)[k][j]) for nme in names) for j in range(len(st[k]))] == V[k], "components", "vx, vy, vz of the stencil %d" % k, **d)
            rec.check([comps(v, dim) for v in S.v[k]] == V[k], "velocities", "v[%d]" % k, **d)
            rec.check(np.array_equal(S.get_all_velocities(k), np.array(V[k])), "all-velocities-k", "get_all_velocities(%d)" % k, **d)
            rec.check([tuple(int(getattr(S[k], nme)[j]) for nme in names) for j in range(len(st[k]))] == V[k] and S[k].nv == len(st[k]), "one-stencil", "the stencil %d" % k, **d)
        flat = np.array([w for s_ in V for w in s_])
        rec.check(list(S.vmax) == list(np.abs(flat).max(axis=0)), "vmax", "vmax is %s instead of %s" % (S.vmax, np.abs(flat).max(axis=0)), **d)
        rec.check(list(S.vmin) == list(flat.min(axis=0)), "vmin", "vmin is %s" % (S.vmin,), **d)
        sym = [set(map(tuple, W)) == {tuple(-c for c in w) for w in W} for W in V]
        rec.check(bool(S.is_symmetric()) == all(sym), "is_symmetric", "is_symmetric is %s, the stencils are %s" % (S.is_symmetric(), sym), **d)
        if all(sym):
            got = S.get_symmetric()
            for k in range(ns):
                for j, w in enumerate(V[k]):
                    want = ptr[k] + V[k].index(tuple(-c for c in w))
                    rec.check(int(got[ptr[k] + j]) == want, "stencil-symmetric", "the symmetric of the velocity %s of the scheme %d has the index %d instead of %d" % (w, k, got[ptr[k] + j], want), **d)
            rec.ev("symmetric_tables")
