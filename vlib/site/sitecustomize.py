"""Processes started by C13: the code that cython compiles gets its bounds checked."""
import os
import sys

if os.environ.get("VERIF_SAN"):
    os.environ.pop("LD_PRELOAD", None)
    if any(a.endswith("setup.py") for a in sys.orig_argv[:3]):
        import Cython.Build

        _cythonize = Cython.Build.cythonize

        def cythonize(modules, *args, **kwargs):
            for e in modules:
                e.extra_compile_args = [a for a in e.extra_compile_args if not a.startswith("-O")] + ["-O0"]
                for name in e.sources:
                    if not name.endswith(".pyx"):
                        continue
                    with open(name) as f:
                        s = f.read()
                    for word in ("boundscheck", "wraparound", "cdivision"):
                        for line in set(l for l in s.splitlines() if l.startswith("#cython:") and word in l):
                            s = s.replace(line + "\n", "")
                    s = "#cython: boundscheck=True\n#cython: wraparound=False\n#cython: cdivision=False\n" + s
                    with open(name, "w") as f:
                        f.write(s)
            return _cythonize(modules, *args, **kwargs)

        Cython.Build.cythonize = cythonize
