RULE = (
    "one case = one random domain (box, labels, solid and fluid elements of every kind, random stencil); a state is a "
    "distinct (dimension, kinds of elements, velocity, kind of link) whose links were all compared with the geometry"
)
MINIMUM = {"links_to_walls": 50000, "cells": 50000, "fluid_elements": 60}
ASSUMPTIONS = [
    "cells, crossings and corners within 1e-8 of a tie are not compared",
    "the elements stay away from the periodic sides; no solid element is added over a fluid one",
    "links through an element from fluid to fluid and again to a solid are compared without fluid elements only",
]
BUDGET = {"quick": 600, "thorough": 2400}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 5 if tier == "quick" else 40
    out = []
    for kind, k in (("box", 24), ("solid2", 40), ("solid3", 24), ("multi2", 30), ("multi3", 16), ("fluid2", 24), ("fluid3", 16)):
        out += [{"kind": kind, "seed": seed * 1000 + i} for i in range(k * n)]
    return out
