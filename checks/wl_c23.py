RULE = (
    "one case = one random simulation (periodic or with walls, with or without source terms) stepped phase by phase next to another one stepped by "
    "one_time_step; a state is a distinct (backend, dimension, walls, sources, step) compared"
)
MINIMUM = {"steps_compared": 120, "compiled_backend_cases": 5, "with_sources": 20, "with_walls": 20, "phases": 400}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value", "the relative velocity in the relaxation phase is a known finding, run apart"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = [{"kind": "relvel", "seed": 0}]
    for kind, k in (("cython", 10), ("periodic", 30), ("walls", 30)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
