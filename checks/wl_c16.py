RULE = (
    "one case = one random scheme linearised at one random state, all the wave vectors of a grid; a state is a distinct "
    "(dimension, velocities, schemes, conserved moments, relative velocity, parameters given late)"
)
MINIMUM = {"schemes": 80, "spectra": 1000, "modes_simulated": 180, "unstable": 8, "stable": 20, "figures": 10}
ASSUMPTIONS = ["characteristic polynomials to 1e-6; eigenvalues within 1e-4 of the unit circle do not decide the answer"]
BUDGET = {"quick": 600, "thorough": 1500}
CASE_TIMEOUT = 40


def cases(tier, seed):
    n = 1 if tier == "quick" else 6
    out = []
    for i in range(40 * n):
        out.append({"kind": "fixed", "dim": 1, "seed": seed * 10000 + i, "simulate": i % 2 == 0})
        out.append({"kind": "fixed", "dim": 2, "seed": seed * 10000 + i, "simulate": i % 4 == 0})
        out.append({"kind": "positive", "dim": 1 + i % 2, "seed": seed * 10000 + i, "simulate": i % 2 == 0})
        if i % 4 == 0:
            out.append({"kind": "fixed", "dim": 3, "seed": seed * 10000 + i})
            out.append({"kind": "relvel", "dim": 1 + i // 4 % 2, "seed": seed * 10000 + i, "simulate": i % 8 == 0})
    # the known finding
    out.append({"kind": "positive", "dim": 2, "seed": 130047})
    return out
