RULE = (
    "one case = one range of velocity numbers, one random list of stencils, or one random velocity; a state is a distinct velocity "
    "(dimension, components) or a distinct list of stencils whose tables were compared"
)
MINIMUM = {"velocities": 3000, "stencils": 60}
BUDGET = {"quick": 600, "thorough": 1500}
CASE_TIMEOUT = 100


def cases(tier, seed):
    out = []
    top = {1: 3000, 2: 3600, 3: 400} if tier == "quick" else {1: 20000, 2: 25000, 3: 2300}
    for dim in (1, 2, 3):
        step = {1: 500, 2: 400, 3: 50}[dim]
        for a in range(0, top[dim], step):
            out.append({"kind": "range", "dim": dim, "from": a, "to": a + step, "seed": seed})
    n = 120 if tier == "quick" else 1500
    out += [{"kind": "stencil", "seed": seed * 1000 + i} for i in range(n)]
    return out
