RULE = (
    "one case = a random simulation and its image by a symmetry of the lattice, a translation or a change of unit, compared at each step; a state is a distinct "
    "(dimension, change, boundary conditions, elements, schemes)"
)
MINIMUM = {"pairs": 60, "steps_compared": 200, "values_compared": 100000, "with_walls": 20, "with_elements": 8, "pairs_symmetry": 25, "pairs_shift": 6, "pairs_move": 15, "pairs_unit": 4}
ASSUMPTIONS = ["agreement to 1e-9 relative to the largest value", "links which meet a corner between two labels are not compared (which face counts is a convention)"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for i in range(14 * n):
        for j, kind in enumerate(["symmetry", "symmetry", "symmetry", "shift", "shift", "move", "move"]):
            out.append({"kind": kind, "dim": 1 + (i + j) % 3 if i % 3 == 0 else 2 + (i + j) % 2, "walls": (i + j) % 4 != 0, "gen": "numpy", "seed": seed * 10000 + 10 * i + j})
    for i in range(3 * n):
        out.insert(4 + i, {"kind": ["symmetry", "move", "symmetry"][i % 3], "dim": 1 + i % 2, "walls": i % 2 == 0, "gen": "cython", "seed": seed * 10000 + 5000 + i})
    for i in range(14 * n):
        out.insert(4 + 5 * i, {"kind": "unit", "dim": 2 + (i % 3 == 2), "walls": True, "gen": "numpy", "seed": seed * 10000 + 7000 + i})
    return out
