RULE = (
    "one case = one mpirun of several random simulations, gathered and compared with the same ones on one process; a state is a "
    "distinct (dimension, split, backend, walls, elements across an interface, largest velocity, step) compared"
)
MINIMUM = {"runs_compared": 40, "steps_compared": 150, "processes": 24, "cells_compared": 10000, "with_walls": 10, "regions": 50}
ASSUMPTIONS = [
    "agreement to 1e-9 relative to the largest value",
    "every process has at least as many cells in each direction as the largest velocity (two for the Bouzidi conditions)",
]
BUDGET = {"quick": 700, "thorough": 3000}
CASE_TIMEOUT = 280
WORKERS = 3


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    splits = [(2, ()), (4, ()), (3, ()), (4, ("-npx", "4")), (4, ("-npy", "2", "-npx", "2")), (2, ("-npy", "2")), (6, ("-npx", "3", "-npy", "2")), (8, ())]
    for j in range(n):
        for i, (np_, opt) in enumerate(splits):
            out.append({"kind": "mpi", "seed": (seed * 1000 + j * 100 + i), "np": np_, "opt": list(opt), "count": 7})
        out.append({"kind": "cython", "seed": seed * 1000 + j, "np": 2, "opt": [], "count": 2})
    return out
