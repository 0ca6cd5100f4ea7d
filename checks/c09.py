"""The domain: fluid cells, distances and labels of the links against the geometry."""
import numpy as np

import pylbm
from vlib import gen, geom, pl, walls
from vlib.core import Sut


def random_domain(rng, kind):
    """Description of a domain: everything is JSON-able."""
    dim = rng.choice([1, 2, 2, 3]) if kind == "box" else int(kind[-1])
    what = kind if kind == "box" else kind[:-1]
    N = [rng.randint(*{1: (6, 20), 2: (8, 16), 3: (7, 9)}[dim]) for _ in range(dim)]
    dx = rng.choice([1.0, 0.5, 0.1, 0.125, 0.2, 0.03])
    xmin = [rng.choice([0.0, -1.0, 0.5, 2.0]) for _ in range(dim)]
    nst = rng.choice([1, 1, 2])
    st = []
    for _ in range(nst):
        k = rng.choice(["classic", "perm", "sym"]) if what != "box" else rng.choice(["classic", "perm", "sym", "sym"])
        st.append(gen.random_stencil(rng, dim, k, {1: 7, 2: 13, 3: 19}[dim], 2 if dim < 3 else 1))
    vmax = [max(abs(gen.velocity(dim, q)[d]) for s in st for q in s) for d in range(dim)]
    labels = []
    for d in range(dim):
        if rng.random() < 0.35:
            labels += [-1, -1]
        else:
            labels += [rng.randint(0, 3), rng.randint(0, 3)]
    elements = []
    lo = np.array(xmin)
    L = np.array(N) * dx

    def center(margin):
        c = []
        for d in range(dim):
            m = margin * dx
            if labels[2 * d] == -1:
                m = max(m, (margin + 2 + vmax[d]) * dx)
            a, b = lo[d] + m, lo[d] + L[d] - m
            if a >= b:
                a = b = lo[d] + L[d] / 2
            c.append(rng.uniform(a, b))
        return c

    def fits(e, margin, everywhere):
        # away from the periodic sides (or from every side)
        p = np.stack(np.meshgrid(*[xmin[d] + (np.arange(-4, N[d] + 4) + 0.5) * dx for d in range(dim)], indexing="ij"), axis=-1)
        lev = geom.shape(e).level(p) <= 0
        if not lev.any():
            return False
        for d in range(dim):
            if labels[2 * d] == -1 or everywhere:
                idx = np.where(lev)[d] - 4
                if idx.min() < margin + vmax[d] or idx.max() >= N[d] - margin - vmax[d]:
                    return False
        return True

    labs = [4, 5, 6, 7, 8, rng.choice([0, 1])]

    def add(size, isfluid=False, c=None, everywhere=False, margin=1):
        for _ in range(60):
            e = geom.random_element(rng, dim, c if c is not None else center(0 if not everywhere else 3), size * rng.uniform(0.7, 1.3), labs, isfluid=isfluid)
            if fits(e, margin, everywhere):
                elements.append(e)
                return e
        return None

    cell = dx * min(N)
    if what == "solid":
        add(rng.uniform(2.2 * dx, 0.3 * cell + dx))
    elif what == "multi":
        for _ in range(rng.randint(2, 3)):
            add(rng.uniform(2.2 * dx, 0.25 * cell + dx))
    elif what == "fluid":
        e = add(rng.uniform(0.3 * cell, 0.4 * cell), everywhere=rng.random() < 0.5, margin=0)
        if e is not None:
            c = geom.middle(e)
            if rng.random() < 0.5:
                c = c + 0.3 * cell * np.array([rng.uniform(-1, 1) for _ in range(dim)])
            inner = geom.random_element(rng, dim, c.tolist(), rng.uniform(0.12, 0.3) * cell, labs, isfluid=True)
            if fits(inner, 1, False):
                elements.append(inner)
    if rng.random() < 0.15:
        names = dict(zip(sorted({q for q in labels if q != -1} | {q for e in elements for q in e["label"]}), rng.sample(walls.RARE, 3) + list(range(20, 40))))
        labels = [names.get(q, q) for q in labels]
        for e in elements:
            e["label"] = [names[q] for q in e["label"]]
    return {"dim": dim, "N": N, "dx": dx, "xmin": xmin, "labels": labels, "elements": elements, "stencils": st}


def dico_of(d):
    box = {}
    for k in range(d["dim"]):
        box["xyz"[k]] = [d["xmin"][k], d["xmin"][k] + d["N"][k] * d["dx"]]
    box["label"] = d["labels"][0] if len(set(d["labels"])) == 1 else list(d["labels"])
    r = {"box": box, "space_step": d["dx"], "schemes": [{"velocities": list(s)} for s in d["stencils"]]}
    if d["elements"]:
        r["elements"] = [geom.build(e) for e in d["elements"]]
    return r


def run(case, rec):
    rng = pl.rng_of(case)
    d = random_domain(rng, case["kind"])
    if case["kind"] != "box" and not d["elements"]:
        return
    fl = geom.Fluid(d["dim"], d["N"], d["dx"], d["xmin"], d["labels"], d["elements"])
    if fl.ambiguous.any() or not fl.fluid.any():
        rec.ev("skipped_degenerate")
        return
    rec.sample({k: d[k] for k in ("dim", "N", "labels", "elements")})
    with Sut(rec, "domain") as s:
        dom = pylbm.Domain(dico_of(d))
        N, vmax = d["N"], list(dom.stencil.vmax)
        inner = tuple(slice(v, v + n) for v, n in zip(vmax, N))
        ioo = dom.in_or_out
        coords = [np.array(c) for c in dom.coords]
    if s.failed:
        return
    desc = dict(domain=d)
    for k in range(d["dim"]):
        want = d["xmin"][k] + (np.arange(N[k]) + 0.5) * d["dx"]
        rec.check(coords[k].shape == want.shape and np.allclose(coords[k], want, atol=1e-9 * max(1, d["dx"])), "coords", "the cells of axis %d are not at the centers" % k, **desc)
    rec.ev("cells", fl.fluid.size)
    rec.ev("fluid_elements", sum(bool(e.get("isfluid")) for e in d["elements"]))
    got = ioo[inner] == dom.valin
    if not rec.check(np.array_equal(got, fl.fluid), "in_or_out", "%d cell(s) are on the wrong side, e.g. %s" % ((got != fl.fluid).sum(), np.argwhere(got != fl.fluid)[:2].tolist()), **desc):
        return
    halo = np.ones(ioo.shape, dtype=bool)
    halo[inner] = False
    rec.check(bool(np.all(ioo[halo] == dom.valout)), "halo", "a cell outside of the box is fluid", **desc)
    kinds = tuple(sorted(e["kind"] + str(e.get("isfluid")) for e in d["elements"]))
    for k, vel in enumerate(dom.stencil.unique_velocities):
        v = tuple(int(c) for c in vel.v)
        dist, flag = dom.distance[k][inner], dom.flag[k][inner]
        off = ~fl.fluid
        if not rec.check(bool(np.all(dist[off] == dom.valin) and np.all(flag[off] == dom.valin)), "solid-links", "a solid cell has a link with velocity %s" % (v,), **desc):
            return
        for idx in np.argwhere(fl.fluid):
            idx = tuple(idx)
            if not any(v):
                r = ("fluid", idx)
            else:
                r = fl.link(idx, v)
            g = (float(dist[idx]), int(flag[idx]))
            if r[0] == "ambiguous":
                rec.ev("links_ambiguous")
                continue
            rec.ev("links")
            if r[0] == "fluid":
                ok = g == (dom.valin, dom.valin)
            elif r[0] == "periodic":
                ok = g[1] in (-1, dom.valin)
            else:
                rec.ev("links_to_walls")
                labs = r[2] if isinstance(r[2], tuple) else (r[2],)
                ok = abs(g[0] - r[1]) < 1e-7 and g[1] in labs
                if ok and r[3] is not None and dom.normal is not None:
                    rec.ev("normals")
                    nrm = np.array(dom.normal[k][inner][idx])
                    if not rec.check(bool(np.abs(nrm - r[3]).max() < 1e-6), "normal", "cell %s, velocity %s: the normal at the wall is %s, got %s" % (tuple(int(i) for i in idx), v, r[3], nrm), **desc):
                        return
            rec.state(d["dim"], kinds, v, r[0])
            if not rec.check(ok, "link-" + r[0], "cell %s, velocity %s: the link is %s, got distance %.9g and label %d" % (tuple(int(i) for i in idx), v, r, g[0], g[1]), **desc):
                return
