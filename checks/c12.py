"""Simulations split between processes."""
import json
import os
import random
import signal
import sys

import numpy as np

import pylbm
from vlib import gen, mpi, pl, walls
from vlib.core import Sut
from vlib.lbm_oracle import Ref, close

STEPS = 4


def split_of(np_, opt, dim):
    o = dict(zip(opt[::2], map(int, opt[1::2])))
    if not o:
        return None
    s = [o.get("-np" + c, 1) for c in "xyz"[:dim]]
    return s if int(np.prod(s)) == np_ else None


def make(case, i):
    """The i-th simulation of a case: the same one in every process."""
    rng = random.Random("%s/%d/%d" % (case["kind"], case["seed"], i))
    np_ = case["np"]
    nsub = np_ // 2 if case["kind"] == "comm" else np_
    for attempt in range(20):
        dim = rng.choice([1, 2, 2, 2, 3])
        if case["opt"] and split_of(nsub, case["opt"], dim) is None:
            dim = 2 if "-npz" not in case["opt"] else 3
        if dim == 3 and case["opt"] and max(split_of(nsub, case["opt"], 3)) > 2:
            dim = 2
        lo = {1: (4 * nsub + 1, 6 * nsub + 5), 2: (4 * nsub if nsub in (2, 3) else 12 if nsub < 8 else 14, 19), 3: (6, 9)}
        if nsub == 3:
            lo[3] = (9, 10)
        if case["opt"]:
            m = max(split_of(nsub, case["opt"], dim) or [nsub])
            lo[2] = (4 * m, 4 * m + 5)
        if dim == 3 and nsub > 4 and nsub != 8:
            dim = 2
        spec = gen.random_spec(
            rng, dim=dim, stencil_kind=rng.choice(["classic", "perm", "sym", "asym"]) if rng.random() < 0.4 else rng.choice(["classic", "perm", "sym"]),
            maxn=9, sizes=lo, sources=rng.random() < 0.2, allow_M=False, scale=0.15, maxv=2,
        )
        spec.labels, spec.geom, spec.walls = [-1] * (2 * dim), [], {}
        sym = all(set(tuple(-c for c in gen.velocity(dim, q)) for q in s.nums) == set(gen.velocity(dim, q) for q in s.nums) for s in spec.schemes)
        wl = sym and rng.random() < 0.6
        if wl:
            walls.add_walls(rng, spec, elements=0.6, periodic=0.3, neumann_axis=0.1)
        spec.generator = "cython" if case["kind"] == "cython" else "numpy"
        spec.order = rng.sample(range(dim + 1), dim + 1) if rng.random() < 0.25 else None
        ref = Ref(spec)
        if ref.cond > 1e5:
            continue
        if wl:
            fl = walls.fluid_of(spec)
            if fl.ambiguous.any() or not fl.fluid.any():
                continue
        return spec
    return None


def run_one(spec, comm=None):
    """Yield (region, distributions, conserved moments) after the creation and after each step."""
    d = walls.to_dico(spec)
    if comm is not None:
        d["comm"] = comm
    sol = pl.simulation_of(d, sorder=spec.order)
    n = [int(round(v)) for v in sol.domain.global_size]
    region = [list(map(int, r)) for r in sol.domain.mpi_topo.get_region(*n)]
    for k in range(STEPS + 1):
        if k:
            sol.one_time_step()
        F = pl.get_F(sol, spec)
        m = np.stack([np.array(sol.m[c]) for c in spec.consm])
        yield region, np.concatenate([F, m]), [np.array(c) for c in sol.domain.coords], sol


def child():
    """Under mpirun: CASE OUT, on every process."""
    import mpi4py.MPI as MPI

    case = json.loads(sys.argv[1])
    out = sys.argv[2]
    w = MPI.COMM_WORLD
    comm, color = w, 0
    if case["kind"] == "comm":
        color = w.rank % 2
        comm = w.Split(color, w.rank)
    for i in range(case["count"]):
        if i in case.get("skip", []):
            continue
        # two communicators: two different simulations at the same time
        j = i if case["kind"] != "comm" else (i if color == 0 else case["count"] - 1 - i)
        spec = make(case, j)
        if spec is None:
            continue
        try:
            steps = []
            regs = None
            for region, a, coords, sol in run_one(spec, comm if case["kind"] == "comm" else None):
                got = comm.gather((region, a, coords), root=0)
                if comm.rank == 0:
                    regs = [g[0] for g in got]
                    full = np.full((a.shape[0],) + tuple(spec.N), np.nan)
                    count = np.zeros(spec.N, dtype=int)
                    for r, b, c in got:
                        sl = tuple(slice(u, v) for u, v in r)
                        if b.shape[1:] != tuple(v - u for u, v in r):
                            raise ValueError("a process has %s cells for the region %s" % (b.shape[1:], r))
                        full[(slice(None),) + sl] = b
                        count[sl] += 1
                        for d in range(spec.dim):
                            want = spec.centers()[d][sl[d]]
                            if not np.allclose(c[d], want, rtol=0, atol=1e-9 * max(1, np.abs(want).max())):
                                raise ValueError("the coordinates of the region %s are wrong" % r)
                    if (count != 1).any():
                        raise ValueError("the regions %s overlap or miss cells of %s" % (regs, spec.N))
                    steps.append(full)
            if comm.rank == 0:
                np.savez("%s_%d.npz" % (out, j + 1000 * color), *steps, split=np.array(sol.domain.mpi_topo.split))
        except BaseException as e:
            import traceback

            with open("%s_error_%d" % (out, w.rank), "w") as f:
                f.write(json.dumps({"i": j, "msg": "%s: %s" % (type(e).__name__, str(e)[:300]), "trace": traceback.format_exc()[-1500:]}))
            print(traceback.format_exc(), flush=True)
            os._exit(7)
    w.Barrier()
    os._exit(0)


class Slow(BaseException):
    pass


def too_slow(*_):
    raise Slow


def run(case, rec):
    out = os.path.join(os.getcwd(), "mpi%d" % case["seed"])
    # the serial runs, and the cases to skip
    serial, specs, skip = {}, {}, []
    for i in range(case["count"]):
        spec = make(case, i)
        if spec is None:
            continue
        specs[i] = spec
        signal.signal(signal.SIGALRM, too_slow)
        signal.alarm(20 if spec.generator == "numpy" else 60)
        try:
            with Sut(rec, "serial run", (Slow,)) as s:
                with np.errstate(all="ignore"):
                    serial[i] = [a for _, a, _, sol in run_one(spec)]
            signal.alarm(0)
        except Slow:
            # sympy needs minutes for some matrices
            skip.append(i)
            rec.ev("slow")
            continue
        if s.failed:
            return
        if spec.walls:
            dom = pylbm.Domain(walls.to_dico(spec))
            try:
                walls.RefWalls(spec, Ref(spec), walls.fluid_of(spec), dom)
            except walls.Degenerate:
                # Bouzidi in a gap of one cell: see C08
                skip.append(i)
                rec.ev("degenerate")
    case = dict(case, skip=skip)
    returncode, log = mpi.mpirun("checks.c12", case["np"], case, out, case["opt"], case.get("timeout", 170))
    if returncode is None:
        rec.ev("mpirun_timeouts")
    rec.ev("processes", case["np"])
    for name in sorted(os.listdir(os.getcwd())):
        if name.startswith(os.path.basename(out) + "_error_"):
            with open(name) as f:
                e = json.loads(f.read())
            if "/pylbm/" in e["trace"] or "ValueError: a process" in e["msg"] or "ValueError: the " in e["msg"]:
                rec.violate("mpi-exception", "on %d processes: %s" % (case["np"], e["msg"]), spec=walls.describe(specs[e["i"]]), trace=e["trace"])
                return
            raise RuntimeError(e["trace"])
    if returncode and not any(os.path.exists("%s_%d.npz" % (out, i)) for i in range(3000)):
        raise RuntimeError(log[-2000:])
    for i in specs:
        for color in (0, 1):
            name = "%s_%d.npz" % (out, i + 1000 * color)
            if not os.path.exists(name):
                continue
            spec = specs[i]
            z = np.load(name)
            desc = walls.describe(spec)
            rec.sample(desc)
            split = z["split"].tolist()
            fluid = walls.fluid_of(spec).fluid
            rec.ev("runs_compared")
            rec.ev("with_walls", bool(spec.walls))
            want_split = split_of(case["np"], case["opt"], spec.dim) if case["kind"] != "comm" else None
            if want_split:
                rec.check(split == want_split, "split", "the split is %s instead of %s" % (split, want_split))
            rec.check(int(np.prod(split)) == (case["np"] // 2 if case["kind"] == "comm" else case["np"]), "split", "the split is %s for %d processes" % (split, case["np"]))
            rec.ev("regions", int(np.prod(split)))
            for k in range(STEPS + 1):
                a, b = z["arr_%d" % k], serial[i][k]
                if not np.all(np.isfinite(b[:, fluid])) or np.abs(b[:, fluid]).max() > 1e4:
                    rec.ev("skipped_unstable")
                    break
                ok, err = close(a[:, fluid], b[:, fluid])
                rec.ev("steps_compared")
                rec.ev("cells_compared", int(fluid.sum()))
                rec.state(spec.dim, split, spec.generator, sorted({n for w in spec.walls.values() for n in w["methods"]}), len(spec.geom), k)
                if not ok:
                    bad = np.argwhere(~(np.abs(a - b).max(axis=0) <= 1e-9) & fluid)
                    rec.check(False, "decomposition", "after %d step(s) on %s processes, %d cells differ by %.3g from the run on one process" % (k, split, len(bad), err), spec=desc, cells=bad[:6].tolist(), split=split)
                    break
                rec.check(True, "decomposition", "")
            os.remove(name)
