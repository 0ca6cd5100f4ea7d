RULE = (
    "one case = one random scheme (stencil, polynomials or M, equilibria or feq, relaxation, "
    "coupled schemes, parameters) on a periodic box, run for several steps; a state is a "
    "distinct (scheme, backend, step) whose distributions were compared with the reference"
)
MINIMUM = {"steps_compared": 60, "compiled_backend_cases": 4}
ASSUMPTIONS = ["double precision: agreement to 1e-9 relative to the largest value"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 75


def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 12
    cy = 10 * n
    for i in range(cy):
        out.append({"kind": "cython", "seed": seed * 1000 + i, "dim": [1, 2, 2, 2, 3][i % 5]})
    for kind, k in (("numpy", 60), ("feq", 8), ("M", 8), ("coupled", 14), ("d3", 6), ("asym", 14)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
