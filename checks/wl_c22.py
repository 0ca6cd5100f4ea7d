RULE = (
    "one case = simulations of random dictionaries run alone, then among others (interleaved, from a dictionary used before, with observations between the steps, in another process), compared at each step; "
    "a state is a distinct (kind, backend, dimensions, what is done between the steps)"
)
MINIMUM = {"runs": 150, "steps_compared": 180, "values_compared": 50000, "interleaved": 15, "matrices": 3, "extra_parameters": 5, "reused": 15, "observations": 100, "processes": 6, "dictionaries_compared": 30, "compiled_backend_cases": 3}
ASSUMPTIONS = ["agreement to 1e-12 in the same process, 1e-9 in another one"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 120


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for i in range(16 * n):
        for j, kind in enumerate(["interleave", "reuse", "observe"]):
            out.append({"kind": kind, "gen": "numpy", "seed": seed * 10000 + 10 * i + j})
    for i in range(10 * n):
        out.insert(3 * i, {"kind": "process", "gen": "numpy", "seed": seed * 10000 + 5000 + i})
    for i in range(8 * n):
        out.insert(4 * i, {"kind": "extra", "gen": "cython" if i % 8 == 5 else "numpy", "seed": seed * 10000 + 8000 + i})
    for i in range(5 * n):
        out.insert(3 * i, {"kind": ["interleave", "reuse", "observe", "process", "interleave"][i % 5], "gen": "cython", "seed": seed * 10000 + 7000 + i})
    return out
