RULE = (
    "one case = one random scheme in a box with walls and obstacles, random methods and imposed values; a state is a "
    "distinct (dimension, backend, method, imposed value, side of 1/2, velocity) link whose distribution was compared with the reference"
)
MINIMUM = {"steps_compared": 100, "links": 20000, "compiled_backend_cases": 4, "uniform_states": 20}
ASSUMPTIONS = [
    "the sign of the second value of BouzidiAntiBounceBack near a wall (q < 1/2) is a known finding: the reference follows pylbm there",
    "agreement to 1e-9 relative to the largest value",
    "at corners, the face is the one that the domain of pylbm chose",
    "geometries where a Bouzidi condition needs a second fluid cell that does not exist are left to C08",
]
BUDGET = {"quick": 600, "thorough": 3000}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    out = [{"kind": "near", "seed": 0}]
    for kind, k in (("cython", 10), ("simple", 40), ("time", 16), ("bouzidi", 50), ("mixed", 70), ("coupled", 16), ("d3", 12), ("neumann", 20), ("uniform", 40)):
        for i in range(k * n):
            out.append({"kind": kind, "seed": seed * 1000 + i})
    return out
