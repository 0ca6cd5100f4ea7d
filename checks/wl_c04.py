RULE = (
    "one case = one random scheme with a random sequence of operations on a simulation (steps, writes of moments and distributions, f2m, "
    "m2f, equilibrium, reads), against a model; a state is a distinct pair (previous operation, operation, backend) or a distinct scheme whose matrices were compared"
)
MINIMUM = {"operations": 1200, "reads_compared": 1500, "compiled_backend_cases": 6, "matrices": 60}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = []
    for kind, k in (("cython", 12), ("ops", 80), ("coupled", 20), ("user", 20)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
