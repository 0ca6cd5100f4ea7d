RULE = (
    "one case = one random simulation with walls and obstacles, run twice with different contents of the solid and outer "
    "cells; a state is a distinct (dimension, backend, methods, kinds of obstacles, step) compared"
)
MINIMUM = {"steps_compared": 250, "compiled_backend_cases": 4, "cells_poisoned": 20000, "fluid_cells": 20000, "aligned_cases": 8}
ASSUMPTIONS = [
    "a Bouzidi condition in a gap of one cell is a known finding, run apart",
    "NeumannX, Y and Z are on the sides of their axis, the other sides being periodic",
]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = [{"kind": "gap", "seed": 0}]
    for kind, k in (("cython", 8), ("solid", 60), ("fluid", 30), ("d3", 12), ("neumann", 12), ("aligned", 24)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
