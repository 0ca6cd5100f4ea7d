"""Helpers around the public interface of pylbm, for the check modules (worker side)."""
import logging
import random

import numpy as np

logging.disable(logging.CRITICAL)

import pylbm  # noqa: E402

from . import lbm_oracle  # noqa: E402
from .gen import velocity  # noqa: E402


def simulation(spec, generator=None, sorder=None, **kw):
    return pylbm.Simulation(spec.to_dico(generator), sorder=sorder or getattr(spec, "sorder", None), **kw)


def vary(case, spec):
    """Another execution of some of the cases: storage order, algorithm, settings."""
    rng = random.Random("vary %s/%s" % (case.get("kind"), case["seed"]))
    spec.sorder = None
    if rng.random() < 0.5:
        return
    if rng.random() < 0.4:
        spec.sorder = rng.sample(range(spec.dim + 1), spec.dim + 1)
    algo = rng.choice([None, "BaseAlgorithm", "BaseAlgorithm", "PullAlgorithm"])
    if algo:
        spec.algo = getattr(pylbm.algorithm, algo)
    r = rng.random()
    if r < 0.3:
        spec.settings = {"split": True, "m_local": False}
    elif spec.generator == "cython" and r < 0.6:
        spec.settings = {"m_local": rng.random() < 0.5}


def simulation_of(dico, sorder=None, **kw):
    return pylbm.Simulation(dico, sorder=sorder, **kw)


def get_F(sol, spec):
    """All the distributions of the interior, scheme by scheme in the order of the dictionary."""
    return np.stack([np.array(sol.F[k]) for k in range(spec.nv)])


def set_F(sol, F):
    """Impose the distributions in the interior, and poison the halo."""
    for k in range(F.shape[0]):
        halo = sol.F_halo[k]
        sol.F_halo[k] = np.full(halo.shape, np.nan)
        sol.F[k][...] = F[k]


def get_m(sol, spec):
    return {c: np.array(sol.m[c]) for c in spec.consm}


def random_F(spec, rng, amp=0.3, mean=None):
    r = np.random.default_rng(rng.randrange(2**31))
    F = amp * (r.random((spec.nv,) + tuple(spec.N)) - 0.5)
    if mean is not None:
        F += mean
    return F


def rng_of(case):
    return random.Random("%s/%s" % (case.get("kind"), case["seed"]))


def stable(ref, *arrays):
    """The reference run stays far from overflow, so a comparison means something."""
    return all(np.all(np.isfinite(a)) and np.max(np.abs(a)) < 300 for a in arrays)
