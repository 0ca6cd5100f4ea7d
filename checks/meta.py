"""Constants of a check, read without running it."""
import importlib


def get(modname):
    m = importlib.import_module("checks.wl_" + modname)
    return {
        "ID": modname.upper(),
        "RULE": m.RULE,
        "MINIMUM": m.MINIMUM,
        "LEVEL": getattr(m, "LEVEL", "exploration"),
        "ASSUMPTIONS": getattr(m, "ASSUMPTIONS", []),
        "BUDGET": getattr(m, "BUDGET", {"quick": 420, "thorough": 3600}),
        "WORKERS": getattr(m, "WORKERS", None),
        "CASE_TIMEOUT": getattr(m, "CASE_TIMEOUT", 240),
    }
