RULE = (
    "one case = the equations of one random scheme, evaluated at two random states; a state is a distinct "
    "(dimension, velocities, schemes, conserved moments, relative velocity)"
)
MINIMUM = {"equations": 50, "fluxes": 150, "diffusions": 500, "dispersions": 60}
ASSUMPTIONS = ["coefficients to 1e-8; the slow modes are computed with 40 digits for a wave number of 1e-5", "no source term (not taken into account by pylbm)"]
BUDGET = {"quick": 600, "thorough": 2000}
CASE_TIMEOUT = 50


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for i in range(30 * n):
        out.append({"kind": "fixed", "dim": 1, "seed": seed * 10000 + i})
        out.append({"kind": "fixed", "dim": 2, "seed": seed * 10000 + i})
        out.append({"kind": "positive", "dim": 1 + i % 2, "seed": seed * 10000 + i})
        if i % 4 == 0:
            out.append({"kind": "fixed", "dim": 3, "seed": seed * 10000 + i})
            out += [{"kind": "relvel", "dim": 2 if j else 1, "seed": seed * 10000 + 3 * i + j} for j in range(3)]
    return out
