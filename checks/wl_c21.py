RULE = (
    "one case = a random simulation with numbers and the same one with parameters (or other names, or parameters given late and changed), compared at each step; "
    "a state is a distinct (kind, dimension, number of parameters, what they replace)"
)
MINIMUM = {"pairs": 60, "steps_compared": 200, "values_compared": 100000, "parameters": 150, "chains": 30, "renamed": 10, "late": 10, "velocity_symbolic": 10}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for i in range(16 * n):
        for j, kind in enumerate(["symbolic", "symbolic", "symbolic", "names", "late"]):
            out.append({"kind": kind, "dim": [1, 2, 2, 1, 3][(i + j) % 5], "gen": "numpy", "seed": seed * 10000 + 10 * i + j})
    for i in range(3 * n):
        out.insert(4 + i, {"kind": ["symbolic", "late", "names"][i % 3], "dim": 1 + i % 2, "gen": "cython", "seed": seed * 10000 + 5000 + i})
    return out
