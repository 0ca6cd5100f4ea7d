RULE = (
    "one case = the code generated for one random simulation (backend cython), compiled with AddressSanitizer, "
    "UndefinedBehaviorSanitizer, checks of the bounds of every index and poisoned local variables, and run; a state is a distinct "
    "(routine, dimension, storage order, settings) executed under these monitors"
)
MINIMUM = {"modules": 16, "calls_monitored": 200, "values_compared": 20000, "boundary_routines": 10, "selftests": 1}
ASSUMPTIONS = [
    "gcc 13 sanitizers and the bound checks of cython observe the code that is executed, compiled from the pyx file that pylbm generates",
    "an uninitialised local is visible if it changes the result or is used as an index: MemorySanitizer would need an instrumented Python",
]
BUDGET = {"quick": 700, "thorough": 3000}
CASE_TIMEOUT = 200


def cases(tier, seed):
    n = 1 if tier == "quick" else 8
    out = [{"kind": "self", "seed": 0, "j": 0}]
    for i in range(24 * n):
        out.append({"kind": "cython", "seed": seed * 1000 + i, "j": i})
    return out
