RULE = (
    "one case = several files open at once, one mpirun writing several files, or the fields of one simulation, all read again; a state is a distinct "
    "(dimension, type of the values, scalar or component, way to give the field, number of processes and split)"
)
MINIMUM = {"files": 200, "fields": 500, "values": 30000, "processes": 20, "simulations": 6, "descriptions": 300}
ASSUMPTIONS = ["at least two cells in each direction on each process", "values are stored in double precision"]
BUDGET = {"quick": 600, "thorough": 1500}
CASE_TIMEOUT = 200


def cases(tier, seed):
    n = 1 if tier == "quick" else 6
    out = []
    splits = [(2, ()), (4, ()), (3, ()), (4, ("-npx", "4")), (4, ("-npy", "2", "-npx", "2")), (6, ("-npx", "3", "-npy", "2")), (8, ())]
    for j in range(n):
        for i, (np_, opt) in enumerate(splits):
            out.append({"kind": "mpi", "seed": (seed * 1000 + j * 100 + i), "np": np_, "opt": list(opt), "count": 12})
        out += [{"kind": "serial", "seed": seed * 1000 + j * 100 + i, "count": 6} for i in range(40)]
        out += [{"kind": "simulation", "seed": seed * 1000 + j * 100 + i} for i in range(12)]
    return out
