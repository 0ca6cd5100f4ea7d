RULE = (
    "one case = one random element of one kind with a grid of points and a direction; a state is a distinct "
    "(kind, direction signs, face hit, from inside or outside)"
)
MINIMUM = {"points": 50000, "hits": 8000, "kinds": 10}
ASSUMPTIONS = ["points and crossings within 1e-8 of a tie are not compared; ellipses and cylinders are given orthogonal base vectors, as documented"]
BUDGET = {"quick": 600, "thorough": 1500}
CASE_TIMEOUT = 60


def cases(tier, seed):
    n = 40 if tier == "quick" else 150
    kinds = ["Circle", "Ellipse", "Parallelogram", "Triangle", "Sphere", "Ellipsoid",
             "CylinderCircle", "CylinderEllipse", "CylinderTriangle", "Parallelepiped", "STL"]
    return [{"kind": k, "seed": seed * 1000 + i} for i in range(n) for k in kinds]
