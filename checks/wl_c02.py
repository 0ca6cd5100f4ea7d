RULE = (
    "one case = one random simulation (with or without walls) run with its default settings on numpy and again with other execution "
    "settings; a state is a distinct (backend, storage order, algorithm, settings, dimension) compared"
)
MINIMUM = {"runs_compared": 120, "compiled_runs": 18, "steps_compared": 300}
ASSUMPTIONS = [
    "agreement to 1e-9 relative to the largest value",
    "m_local needs a compiled backend and no split, and check_isfluid the GPU backend (pylbm refuses the other combinations)",
]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 80


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = []
    for i in range(28 * n):
        out.append({"kind": "cython", "seed": seed * 1000 + i, "j": i})
    for i in range(80 * n):
        out.append({"kind": "numpy", "seed": seed * 1000 + i, "j": i})
    for i in range(14 * n):
        out.insert(3 + 4 * i, {"kind": "order", "seed": seed * 1000 + i, "j": i})
    return out
