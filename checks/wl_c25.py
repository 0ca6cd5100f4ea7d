RULE = (
    "one case = a random simulation and the same one whose dictionary is written in another order, compared at each step; a state is a distinct "
    "(dimension, what is reordered, schemes, conserved moments, walls, relative velocity)"
)
MINIMUM = {"pairs": 60, "steps_compared": 200, "values_compared": 100000, "with_walls": 12, "with_sources": 12, "changed_conserved": 15, "changed_moments": 15, "changed_velocities": 15, "changed_schemes": 15, "changed_entries": 15, "methods_exchanged": 8}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = [{"kind": "numpy", "seed": seed * 10000 + i} for i in range(72 * n)]
    for i in range(20 * n):
        out.insert(4 * i, {"kind": "walls", "dim": [1, 2, 2, 3][i % 4], "seed": seed * 10000 + i})
    out[5:5] = [{"kind": "cython", "dim": 1 + i % 2, "seed": seed * 10000 + i} for i in range(3 * n)]
    return out
