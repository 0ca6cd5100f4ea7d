RULE = (
    "one case = one random scheme with source terms on a periodic box, run from an arbitrary state at an arbitrary time; a state is a "
    "distinct (scheme, backend, step) whose distributions were compared with the reference"
)
MINIMUM = {"steps_compared": 250, "compiled_backend_cases": 6, "time_dependent": 30, "coupled_sources": 20}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value", "source terms that depend on the coordinates are a known finding, run apart"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = [{"kind": "space", "seed": i} for i in range(2)]
    for kind, k in (("cython", 12), ("one", 40), ("coupled", 40), ("number", 12), ("time", 25)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
