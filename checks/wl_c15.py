RULE = (
    "one case = one random simulation with its initial values written in random forms; a state is a distinct "
    "(dimension, backend, inittype, form of the values, walls, initialize) whose arrays were compared"
)
MINIMUM = {"fields_compared": 500, "compiled_backend_cases": 4, "distributions": 20, "lazy": 20, "times": 150, "coordinates": 300}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = []
    for kind, k in (("cython", 7), ("moments", 50), ("distributions", 30), ("walls", 24), ("time", 20)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
