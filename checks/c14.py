"""Files written by H5File, read again."""
import json
import os
import random
import shutil
import sys
import xml.etree.ElementTree as ET

import h5py
import numpy as np

import pylbm
from vlib import gen, mpi, pl
from vlib.core import Sut

SIZE = {1: (2, 20), 2: (2, 9), 3: (2, 6)}


def field(rng, n, k):
    """The global field number k: distinct values everywhere."""
    r = np.random.RandomState(rng.randrange(2**31))
    kind = rng.choice(["double", "double", "double", "double", "float32", "int", "int8", "bool", "scaled", "special"])
    a = r.rand(*n) + k
    if kind == "float32":
        return a.astype(np.float32)
    if kind == "int":
        return r.randint(-(10**6), 10**6, n)
    if kind == "int8":
        return r.randint(-100, 100, n).astype(np.int8)
    if kind == "bool":
        return r.rand(*n) < 0.5
    if kind == "scaled":
        return a * 10.0 ** rng.randint(-200, 200)
    if kind == "special":
        a.flat[rng.randrange(a.size)] = rng.choice([np.nan, np.inf, -np.inf, -0.0])
    return a


def layout(rng, a):
    """The same values, stored in another way."""
    kind = rng.choice(["C", "C", "F", "axes", "slice", "component", "reversed", "readonly"])
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "axes":
        p = rng.sample(range(a.ndim), a.ndim)
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
    if kind == "slice":
        b = np.full([s + 4 for s in a.shape], 77).astype(a.dtype)
        v = b[tuple(slice(2, -2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "component":
        b = np.full(a.shape + (3,), 55).astype(a.dtype)
        b[..., 1] = a
        return b[..., 1]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    a = a.copy()
    if kind == "readonly":
        a.setflags(write=False)
    return a


def plan(rng, one, opt):
    """One file."""
    dim = rng.choice([2, 3] if "-npy" in opt else [1, 2, 2, 3, 3])
    n = [rng.randint(*SIZE[dim]) for _ in range(dim)]
    if not one:
        n = [max(k, rng.randint(8, 12)) if d == 0 or dim < 3 else max(k, 4) for d, k in enumerate(n)]
        if dim == 1:
            n = [rng.randint(16, 24)]
        if dim == 3:
            n = [rng.randint(8, 9) for _ in n]
    items = []
    for k in range(rng.randint(1, 5)):
        nc = rng.choice([0, 0, 1, 2, 3])
        nc = min(nc, 3)
        fs = [field(rng, n, 10 * k + c) for c in range(max(nc, 1))]
        if nc and len({f.dtype for f in fs}) > 1 and rng.random() < 0.3:
            fs = [f.astype(float) for f in fs]
        items.append({"vector": bool(nc), "name": rng.choice(["rho", "u", "p_", "Mass ", "q"]).strip() + str(k), "data": fs, "how": rng.choice(["array", "array", "function", "args"]), "seed": rng.randrange(10**6)})
    x0 = [rng.uniform(-3, 3) for _ in n]
    dx = rng.choice([1.0, 0.1, 0.037])
    return {
        "dim": dim, "n": n, "items": items, "coords": [x0[d] + dx * (np.arange(n[d]) + 0.5) for d in range(dim)],
        "timestep": rng.choice([None, 0, 1, 25, 100000, "a", "007"]),
        "ext": rng.choice(["", "", ".h5"]), "path": rng.choice(["new", "old", "new", "deep", "dot", "slash"]),
    }


def names(p, i, base):
    """directory, filename given, names of the files"""
    d = {"new": "out%d" % i, "old": "shared", "deep": os.path.join("shared", "d%d" % i), "dot": ".", "slash": "./out%d" % i, "none": ""}[p["path"]]
    name = "%sfile%d" % (base, i)
    full = name if p["timestep"] is None else "%s_%s" % (name, p["timestep"])
    return d, name + p["ext"], os.path.join(d, full + ".h5"), os.path.join(d, full + ".xdmf")


def store(h5, it, part):
    """One field, given in one of the ways; part: the cells of this process."""
    rng = random.Random(it["seed"])
    datas = [layout(rng, d[part]) for d in it["data"]]
    val = datas if it["vector"] else datas[0]
    add = h5.add_vector if it["vector"] else h5.add_scalar
    if it["how"] == "array":
        add(it["name"], val)
    elif it["how"] == "function":
        add(it["name"], lambda: val)
    else:
        add(it["name"], lambda a, b: b[a], "key", {"key": val, "other": 1})


def write(p, i, base, topo, part):
    d, fn, _, _ = names(p, i, base)
    kw = {} if p["path"] == "none" else {"path": d}
    if p["timestep"] is not None:
        kw["timestep"] = p["timestep"]
    h5 = pylbm.H5File(topo, fn, **kw)
    h5.set_grid(*[np.array(c[s]) for c, s in zip(p["coords"], part)])
    return h5


def files(case):
    rng = random.Random("%s/%d" % (case["kind"], case["seed"]))
    return [plan(rng, case.get("np", 1) == 1, case.get("opt", ())) for _ in range(case["count"])]


def child():
    import mpi4py.MPI as MPI
    from pylbm.mpi_topology import MpiTopology

    case = json.loads(sys.argv[1])
    w = MPI.COMM_WORLD
    try:
        for i, p in enumerate(files(case)):
            topo = MpiTopology(p["dim"], [False] * p["dim"])
            part = tuple(slice(*map(int, r)) for r in topo.get_region(*p["n"]))
            h5 = write(p, i, "m", topo, part)
            for it in p["items"]:
                store(h5, it, part)
            h5.save()
    except BaseException:
        import traceback

        with open("error_%d" % w.rank, "w") as f:
            f.write(traceback.format_exc())
        os._exit(7)
    w.Barrier()
    MPI.Finalize()


def inspect(rec, p, i, base, what):
    """Read the files again."""
    _, _, h5n, xn = names(p, i, base)
    desc = {"dim": p["dim"], "n": p["n"], "timestep": p["timestep"], "where": what, "items": [(it["name"], it["vector"], [str(d.dtype) for d in it["data"]], it["how"]) for it in p["items"]]}
    if not rec.check(os.path.exists(h5n) and os.path.exists(xn), "files", "%s or %s is missing, there are %s" % (h5n, xn, sorted(os.listdir(os.path.dirname(h5n) or "."))[:10]), **desc):
        return
    rec.ev("files")
    want = {}
    for d, c in enumerate(p["coords"]):
        want["x_%d" % d] = c
    shapes = tuple(p["n"][::-1])
    with h5py.File(h5n, "r") as f:
        rec.check(sorted(f.keys()) == sorted(["x_%d" % d for d in range(p["dim"])] + [it["name"] for it in p["items"]]), "names", "the file has %s" % sorted(f.keys()), **desc)
        if rec.violations:
            return
        for k, c in want.items():
            rec.check(np.array_equal(f[k][...], c), "coordinates", "%s is %s instead of %s" % (k, f[k][...], c), **desc)
            rec.ev("coordinates")
        for it in p["items"]:
            got = f[it["name"]][...]
            for c, data in enumerate(it["data"]):
                g = got[..., c] if it["vector"] else got
                rec.ev("fields")
                rec.ev("values", data.size)
                rec.state(p["dim"], str(data.dtype), it["vector"], c, it["how"], what)
                if g.shape != shapes:
                    rec.check(False, "shape", "the shape of %s is %s instead of %s" % (it["name"], got.shape, shapes), **desc)
                    continue
                same = (g == data.T.astype(float)) | (np.isnan(g) & np.isnan(data.T.astype(float)))
                rec.check(bool(same.all()), "values", "%s, component %d: %d values of %d are not those which were stored" % (it["name"], c, int((~same).sum()), same.size), **desc)
            if it["vector"]:
                for c in range(len(it["data"]), got.shape[-1]):
                    rec.check(not got[..., c].any(), "values", "the missing component %d of %s is not zero" % (c, it["name"]), **desc)
        # the description
        root = ET.parse(xn).getroot()
        geo = [e for e in root.iter("Geometry")]
        refs = [x.text.strip() for e in geo for x in e.iter("DataItem")]
        h = os.path.basename(h5n)
        rec.check(refs == ["%s:/x_%d" % (h, d) for d in range(p["dim"])], "xdmf", "the coordinates of the description are %s" % refs, **desc)
        rec.check([x.get("Dimensions").split() for e in geo for x in e.iter("DataItem")] == [[str(k)] for k in p["n"]], "xdmf", "the sizes of the coordinates of the description", **desc)
        att = {e.get("Name"): e for e in root.iter("Attribute")}
        rec.check(sorted(att) == sorted(it["name"] for it in p["items"]), "xdmf", "the fields of the description are %s" % sorted(att), **desc)
        for it in p["items"]:
            e = att.get(it["name"])
            if e is None:
                continue
            item = e.find("DataItem")
            rec.check(e.get("AttributeType") == ("Vector" if it["vector"] else "Scalar"), "xdmf", "the kind of %s in the description is %s" % (it["name"], e.get("AttributeType")), **desc)
            ref = item.text.strip()
            rec.check(ref == "%s:/%s" % (h, it["name"]), "xdmf", "%s refers to %s" % (it["name"], ref), **desc)
            rec.check(item.get("Dimensions").split() == [str(k) for k in f[it["name"]].shape], "xdmf-dimensions", "the dimensions of %s are %s in the description and %s in the file" % (it["name"], item.get("Dimensions"), f[it["name"]].shape), **desc)
            rec.ev("descriptions")
        for e in root.iter("Topology"):
            rec.check(sorted(e.get("NumberOfElements").split()) == sorted(map(str, p["n"])), "xdmf", "the number of elements is %s" % e.get("NumberOfElements"), **desc)


def run(case, rec):
    old = os.getcwd()
    work = os.path.join(old, "h5_%s_%d" % (case["kind"], case["seed"]))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "shared"))
    os.chdir(work)
    try:
        {"serial": serial, "mpi": parallel, "simulation": simulation}[case["kind"]](case, rec)
    finally:
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)


def serial(case, rec):
    from pylbm.mpi_topology import MpiTopology

    rng = pl.rng_of(case)
    ps = files(case)
    for p in ps:
        if rng.random() < 0.15:
            p["path"] = "none"
    opened = []
    full = lambda p: tuple(slice(0, k) for k in p["n"])
    with Sut(rec, "write") as s:
        # the files are open at the same time and filled in any order
        for i, p in enumerate(ps):
            opened.append(write(p, i, "s", MpiTopology(p["dim"], [False] * p["dim"]), full(p)))
        todo = [(i, it) for i, p in enumerate(ps) for it in p["items"]]
        if rng.random() < 0.5:
            rng.shuffle(todo)
        left = [sum(1 for j, _ in todo if j == i) for i in range(len(ps))]
        for i, it in todo:
            store(opened[i], it, full(ps[i]))
            left[i] -= 1
            if not left[i]:
                opened[i].save()
    if s.failed:
        return
    for i, p in enumerate(ps):
        inspect(rec, p, i, "s", "serial")
        rec.sample({"n": p["n"], "path": p["path"], "timestep": p["timestep"]})
    # a series in time with the same name, then the first one written again
    p = ps[0]
    with Sut(rec, "series") as s:
        for t in (0, 1, 10):
            q = dict(p, timestep=t, items=[dict(it, data=[d[..., ::-1] if t == 1 else d for d in it["data"]]) for it in p["items"]])
            h5 = write(q, 99, "t", MpiTopology(p["dim"], [False] * p["dim"]), full(p))
            for it in q["items"]:
                store(h5, it, full(p))
            h5.save()
    if s.failed:
        return
    inspect(rec, dict(p, timestep=0), 99, "t", "series")
    inspect(rec, dict(p, timestep=1, items=[dict(it, data=[d[..., ::-1] for d in it["data"]]) for it in p["items"]]), 99, "t", "series")
    inspect(rec, dict(p, timestep=10), 99, "t", "series")


def parallel(case, rec):
    returncode, log = mpi.mpirun("checks.c14", case["np"], case, "x", case["opt"])
    if returncode is None:
        rec.ev("mpirun_timeouts")
        return
    rec.ev("processes", case["np"])
    for name in sorted(os.listdir(".")):
        if name.startswith("error_"):
            with open(name) as f:
                t = f.read()
            if "/pylbm/" in t:
                rec.violate("mpi-exception", "on %d processes: %s" % (case["np"], t.strip().splitlines()[-1][:300]), trace=t[-1500:])
                return
            raise RuntimeError(t)
    if returncode:
        raise RuntimeError(log[-1500:])
    for i, p in enumerate(files(case)):
        inspect(rec, p, i, "m", "%d processes %s" % (case["np"], " ".join(case["opt"])))


def simulation(case, rec):
    """As the demos do, with the moments of a simulation."""
    rng = pl.rng_of(case)
    dim = rng.choice([1, 2, 2, 3])
    spec = gen.random_spec(rng, dim=dim, stencil_kind="classic", maxn=9, sizes={1: (6, 15), 2: (4, 10), 3: (3, 6)}, sources=False, scale=0.1, maxv=1)
    spec.order = rng.sample(range(dim + 1), dim + 1) if rng.random() < 0.6 else None
    with Sut(rec, "simulation") as s:
        sol = pl.simulation(spec, sorder=spec.order)
    if s.failed:
        return
    for k in range(rng.choice([0, 1, 3])):
        sol.one_time_step()
    a = [np.array(sol.m[c]) for c in spec.consm]
    rec.sample(spec.describe())
    with Sut(rec, "write") as s:
        h5 = pylbm.H5File(sol.domain.mpi_topo, "sim", "./simulation", sol.nt)
        h5.set_grid(*[getattr(sol.domain, c) for c in "xyz"[:dim]])
        for k, c in enumerate(spec.consm):
            if k % 2:
                h5.add_scalar("s%d" % k, lambda: sol.m[c])
            else:
                h5.add_scalar("s%d" % k, sol.m[c])
        h5.add_vector("v", [sol.m[c] for c in spec.consm[:3]])
        h5.save()
    if s.failed:
        return
    n = list(spec.N)
    items = [{"vector": False, "name": "s%d" % k, "data": [d], "how": "simulation", "seed": 0} for k, d in enumerate(a)]
    items.append({"vector": True, "name": "v", "data": a[:3], "how": "simulation", "seed": 0})
    p = {"dim": dim, "n": n, "items": items, "coords": [np.asarray(c) for c in sol.domain.coords], "timestep": sol.nt, "ext": "", "path": "dir"}
    h = os.path.join("simulation", "sim_%d" % sol.nt)
    global names
    keep = names
    names = lambda p, i, base: ("simulation", "sim", h + ".h5", h + ".xdmf")
    try:
        inspect(rec, p, 0, "", "simulation")
    finally:
        names = keep
    rec.ev("simulations")
    for c, w in zip(p["coords"], spec.centers()):
        rec.check(np.allclose(c, w, rtol=0, atol=1e-9), "coordinates", "the coordinates of the domain", **spec.describe())
