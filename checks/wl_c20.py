RULE = (
    "one case = a random dictionary with codegen_option: code written in a directory, used again (generate False, same or other process, other size and initial state), replaced by the code of another simulation, compared with simulations without the option; "
    "a state is a distinct (kind, backend, dimension, what is done with the directory)"
)
MINIMUM = {"runs": 120, "steps_compared": 100, "values_compared": 30000, "reloaded": 20, "other_process": 4, "replaced": 15, "directories": 40, "compiled_backend_cases": 3}
ASSUMPTIONS = ["agreement to 1e-12"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 240


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = []
    for i in range(22 * n):
        for j, kind in enumerate(["reload", "replace"]):
            out.append({"kind": kind, "gen": "numpy", "seed": seed * 10000 + 10 * i + j})
    for i in range(4 * n):
        out.insert(i, {"kind": ["reload", "replace"][i % 2], "gen": "cython", "seed": seed * 10000 + 7000 + i})
    return out
