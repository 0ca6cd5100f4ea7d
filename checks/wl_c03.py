RULE = (
    "one case = one random scheme, periodic or closed by bounce-back, run from an arbitrary state; a state is a distinct "
    "(dimension, backend, walls, conserved quantity, step) whose total was compared"
)
MINIMUM = {"totals": 1500, "walled_totals": 300, "compiled_backend_cases": 3, "long_runs": 10}
ASSUMPTIONS = ["totals agree to 1e-10 times the sum of the absolute values of the terms, per step"]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = []
    for kind, k in (("cython", 8), ("periodic", 60), ("closed", 70), ("long", 16), ("source", 16)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
