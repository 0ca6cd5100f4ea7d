RULE = (
    "one case = one dictionary with a dozen random expressions of the conserved moments (as equilibria, sources or relative velocity), compared in each cell with their value in multiple precision; "
    "a state is a distinct (kind, backend, function used)"
)
MINIMUM = {"expressions": 250, "points_compared": 10000, "functions": 400, "compiled_backend_cases": 4, "piecewise": 20, "minmax": 20}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest intermediate value", "cells where the expression is not real, or within 1e-9 of a discontinuity, are not compared"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 90


def cases(tier, seed):
    n = 1 if tier == "quick" else 10
    out = []
    for i in range(9 * n):
        for j, kind in enumerate(["equilibrium", "equilibrium", "source", "relvel"]):
            out.append({"kind": kind, "gen": "numpy", "seed": seed * 10000 + 10 * i + j})
    for i in range(9 * n):
        out.insert(3 * i, {"kind": ["equilibrium", "source", "equilibrium", "relvel"][i % 4], "gen": "cython", "seed": seed * 10000 + 5000 + i})
    return out
