RULE = (
    "one case = one random scheme with a relative velocity (constant, or function of the conserved "
    "moments), run for a few steps from an arbitrary state; a state is a distinct (scheme, kind, step) compared"
)
MINIMUM = {"steps_compared": 60, "source_steps": 15, "compiled_backend_cases": 3}
ASSUMPTIONS = ["the span of the polynomials and of the conserved ones is invariant by translation, as T(u)T(-u)=Id requires"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 75


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = []
    for i in range(8 * n):
        out.append({"kind": ["oracle", "source"][i % 2], "seed": seed * 1000 + i, "gen": "cython"})
    for kind, k in (("oracle", 24), ("zero", 8), ("equal_s", 10), ("source", 20), ("frame", 8), ("base", 8), ("three", 12)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i, "gen": "numpy"})
    return out
