RULE = (
    "one case = random valid dictionaries given to the classes of pylbm, then the same with one or two of their entries made wrong; "
    "a state is a distinct (class, kind of entry, what is wrong)"
)
MINIMUM = {"accepted": 120, "simulations_accepted": 12, "refused": 1500, "missing": 150, "unknown": 150, "exclusive": 60, "two_errors": 150, "optional_entries": 200}
ASSUMPTIONS = ["the type of every entry is the one of the documentation"]
BUDGET = {"quick": 600, "thorough": 1800}
CASE_TIMEOUT = 90


def cases(tier, seed):
    n = 1 if tier == "quick" else 12
    return [{"kind": ["valid", "one", "one", "two"][i % 4], "seed": seed * 10000 + i} for i in range(96 * n)]
