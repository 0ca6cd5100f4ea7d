"""The dictionaries that do not describe a simulation are refused, the others are accepted."""
import copy
import logging
import re

import numpy as np
import sympy as sp

import pylbm

from vlib import equiv, gen, pl
from vlib.core import Sut
from vlib.lbm_oracle import Ref

CLASSES = ["Stencil", "Geometry", "Domain", "Scheme", "Simulation"]
# entries (of the dictionary or of each scheme) without which the class has no sense: the sets of alternatives
REQUIRED = {
    "Stencil": [("dim", "box"), ("schemes",)],
    "Geometry": [("box",)],
    "Domain": [("box",), ("space_step",), ("schemes",)],
    "Scheme": [("dim", "box"), ("scheme_velocity",), ("schemes",)],
    "Simulation": [("box",), ("space_step",), ("scheme_velocity",), ("schemes",), ("init",)],
}
REQUIRED_SCHEME = {
    "Stencil": [("velocities",)],
    "Geometry": [],
    "Domain": [("velocities",)],
    "Scheme": [("velocities",), ("M", "polynomials"), ("relaxation_parameters",), ("equilibrium", "feq"), ("conserved_moments",)],
}
REQUIRED_SCHEME["Simulation"] = REQUIRED_SCHEME["Scheme"]

ANSI = re.compile("\x1b\\[[0-9;]*m")
Q = sp.Symbol("q_unknown")


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.out = []

    def emit(self, record):
        self.out.append((record.levelno, ANSI.sub("", record.getMessage())))


class listen:
    """Records what the validation says."""

    def __enter__(self):
        self.h = Records()
        self.log = logging.getLogger("pylbm.validator")
        self.old = self.log.level, self.log.propagate
        self.disabled = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.log.setLevel(logging.INFO)
        self.log.propagate = False
        self.log.addHandler(self.h)
        return self.h.out

    def __exit__(self, *a):
        self.log.removeHandler(self.h)
        self.log.setLevel(self.old[0])
        self.log.propagate = self.old[1]
        logging.disable(self.disabled)


def some_function(x, *args):
    return 0 * x + 1.0


def feq_function(v, u):
    return sp.Matrix([u / len(v)] * len(v))


class NotABoundary:
    pass


class MyBoundary(pylbm.bc.BounceBack):
    """a boundary condition of the user"""


def elements(rng, dim, spec):
    """Some small elements."""
    lab = rng.choice([None, 0, 1, [1] * {1: 2, 2: 4, 3: 6}[dim]])
    c = [x + n * spec.dx / 2 for x, n in zip(spec.xmin, spec.N)]
    r = spec.dx
    if dim == 1:
        return []
    fluid = rng.random() < 0.3
    if dim == 2:
        out = [pylbm.Circle(c, r, label=0, isfluid=fluid), pylbm.Parallelogram(c, [r, 0.0], [0.0, r], label=rng.choice([0, [0, 1, 2, 3]]))]
    else:
        out = [pylbm.Sphere(c, r, label=0, isfluid=fluid), pylbm.Parallelepiped(c, [r, 0.0, 0], [0.0, r, 0], [0, 0, r], label=0)]
    return out[: rng.randint(1, 2)]


def random_dico(rng):
    """A valid dictionary of a simulation, and its spec."""
    for _ in range(30):
        spec = gen.random_spec(
            rng, dim=rng.choice([1, 2, 2, 3]), stencil_kind=rng.choice(["classic", "perm", "sym"]), maxn=9, sources=rng.random() < 0.4,
            relvel=rng.random() < 0.25, scale=0.15, maxv=2, sizes={1: (6, 14), 2: (5, 9), 3: (4, 5)}, simple=rng.random() < 0.5,
        )
        equiv.no_walls(spec)
        if Ref(spec).cond < 1e5 and not equiv.degenerate(spec):
            break
    spec.generator = "numpy"
    d = spec.to_dico()
    return spec, d


def complete(rng, spec, d, rec):
    """Adds optional entries."""
    dim = spec.dim
    n = 0
    box = d["box"]
    if rng.random() < 0.5:
        n += 1
        box["label"] = rng.choice([-1, [-1] * (2 * dim)])
    if rng.random() < 0.4:
        n += 1
        d["elements"] = [] if rng.random() < 0.4 else elements(rng, dim, spec)
        labs = {0: None}
    if rng.random() < 0.4 or d.get("elements"):
        n += 1
        d["boundary_conditions"] = {}
        if rng.random() < 0.7 or d.get("elements"):
            k = len(d["schemes"])
            for lab in range(4):
                m = rng.choice([pylbm.bc.BounceBack, pylbm.bc.Neumann, pylbm.bc.AntiBounceBack, MyBoundary])
                b = {"method": {i: m for i in range(k)}}
                r = rng.random()
                if r < 0.2:
                    b["time_bc"] = rng.random() < 0.5
                d["boundary_conditions"][lab] = b
    if rng.random() < 0.3:
        n += 1
        d.setdefault("parameters", {})
        if rng.random() < 0.6:
            d["parameters"][Q] = rng.choice([1, 0.5, sp.Rational(1, 3), sp.Integer(2), sp.Symbol("q1") / 2, 2 * sp.pi])
            d["parameters"][sp.Symbol("q1")] = 1.5
    if rng.random() < 0.3:
        n += 1
        d["show_code"] = False
    if rng.random() < 0.3:
        n += 1
        d["codegen_option"] = rng.choice([{}, {"generate": True}])
    if rng.random() < 0.3:
        n += 1
        d["lbm_algorithm"] = rng.choice([{}, {"name": pylbm.algorithm.BaseAlgorithm}, {"name": pylbm.algorithm.PullAlgorithm, "settings": {}}, {"settings": {}}, {"settings": {"split": False}}])
    if rng.random() < 0.3 and d.get("inittype", "moments") == "moments":
        n += 1
        d["inittype"] = "moments"
    for s in d["schemes"]:
        c = s["conserved_moments"]
        if len(c) == 1 and rng.random() < 0.5:
            n += 1
            s["conserved_moments"] = c[0]
        if rng.random() < 0.3 and "source_terms" not in s:
            n += 1
            s["source_terms"] = rng.choice([{}, {c[0]: 0}, {c[0]: sp.Integer(0)}, {c[0]: 0.0 * c[0] + 1e-3}])
    for k, v in list(d["init"].items()):
        if rng.random() < 0.3:
            n += 1
            d["init"][k] = rng.choice([1, 0.5, some_function])
    if rng.random() < 0.2:
        n += 1
        d.pop("generator")
    items = list(d.items())
    rng.shuffle(items)
    rec.ev("optional_entries", n)
    return dict(items)


def restrict(rng, d, name):
    """The dictionary of another class: without some of the entries it does not need."""
    d = dup(d)
    req = {k for alt in REQUIRED[name] for k in alt}
    for k in list(d):
        if k not in req and rng.random() < 0.6 and (name != "Simulation" or k in ("show_code", "codegen_option", "lbm_algorithm", "generator")):
            d.pop(k)
    if name == "Geometry" and rng.random() < 0.5:
        d.pop("schemes", None)
        d.pop("space_step", None)
        d.pop("scheme_velocity", None)
    if name in ("Stencil", "Scheme") and rng.random() < 0.6:
        dim = {"x": 1, "y": 2, "z": 3}[max(k for k in d["box"] if k in "xyz")]
        d.pop("box")
        d.pop("elements", None)
        d["dim"] = dim
    if "schemes" in d:
        reqs = {k for alt in REQUIRED_SCHEME[name] for k in alt}
        for s in d["schemes"]:
            for k in list(s):
                if k not in reqs and rng.random() < 0.6 and name != "Simulation":
                    s.pop(k)
    return d


def dup(d):
    """A copy of the structure; the leaves are the same objects."""
    if isinstance(d, dict):
        return {k: dup(v) for k, v in d.items()}
    if isinstance(d, list):
        return [dup(v) for v in d]
    return d


def build(name, d):
    return getattr(pylbm, name)(d)


def show(d):
    if isinstance(d, dict):
        return {str(k): show(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [show(v) for v in d]
    return str(d) if not isinstance(d, (int, float, bool, str)) else d


# --- what can be wrong -------------------------------------------------------
# each of them changes d and returns (path of the entries marked, what, mark of a missing entry or not), or None


def put(d, path, value):
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = value


def get(d, path):
    for p in path:
        d = d[p]
    return d


def missing(rng, d, name):
    alts = [((), a) for a in REQUIRED[name]]
    if "schemes" in d:
        alts += [(("schemes", i), a) for i in range(len(d["schemes"])) for a in REQUIRED_SCHEME[name]]
    where, alt = rng.choice(alts)
    e = get(d, where)
    for k in alt:
        e.pop(k, None)
    return where, alt


def unknown(rng, d):
    places = [()]
    if "schemes" in d:
        places += [("schemes", i) for i in range(len(d["schemes"]))]
    places += [(k,) for k in ("box", "codegen_option", "lbm_algorithm") if k in d]
    places += [("boundary_conditions", k) for k in d.get("boundary_conditions", {})]
    where = rng.choice(places)
    e = get(d, where)
    key = rng.choice(["unknown_entry", "space_steps", "velocity", "Box", "Dim", "source", "relaxation_parameter", "values", "boundary", "scheme", "names", "labels"])
    if key in e:
        return None
    e[key] = rng.choice([1, "a", [], {}, None])
    return where + (key,)


def exclusive(rng, d):
    places = []
    if "box" in d or "dim" in d:
        places.append(())
    for i, s in enumerate(d.get("schemes", [])):
        places += [("schemes", i)]
    where = rng.choice(places)
    e = get(d, where)
    if where == ():
        if "box" in e:
            e["dim"] = {"x": 1, "y": 2, "z": 3}[max(k for k in e["box"] if k in "xyz")]
        else:
            e["box"] = {k: [0.0, 1.0] for k in "xyz"[: e["dim"]]}
        return [where + ("dim",), where + ("box",)]
    pairs = []
    if "M" in e or "polynomials" in e:
        pairs.append(("M", "polynomials"))
    if "equilibrium" in e or "feq" in e:
        pairs.append(("equilibrium", "feq"))
    if not pairs:
        return None
    a = rng.choice(pairs)
    n = len(e.get("relaxation_parameters", e.get("velocities", [1])))
    values = {"M": sp.eye(n), "polynomials": [sp.Integer(1)] * n, "equilibrium": [sp.Integer(0)] * n, "feq": [feq_function, [sp.Symbol("rho")]]}
    for k in a:
        if k not in e:
            e[k] = values[k]
    return [where + (k,) for k in a]


class Other:
    def __repr__(self):
        return "other"


def replaced(rng, d):
    """An entry of the wrong type (or with a wrong value)."""
    opts = []  # (path of the entry changed, wrong values, path marked)
    oth = [None, Other(), "text", {}, [], 1, 0.5, sp.Symbol("z1"), (1, 2), True, NotABoundary, some_function, np.arange(3), 1j]

    def wrong(*allowed):
        out = []
        for x in oth:
            t = (
                "number" if isinstance(x, (int, float)) and not isinstance(x, bool) else
                "bool" if isinstance(x, bool) else "str" if isinstance(x, str) else "dict" if isinstance(x, dict) else "list" if isinstance(x, (list, tuple)) and not isinstance(x, tuple) else
                "tuple" if isinstance(x, tuple) else "expr" if isinstance(x, sp.Expr) else "func" if x is some_function else "other"
            )
            if t not in allowed:
                out.append(x)
        return out

    for k in d:
        if k == "dim":
            opts.append(((k,), wrong("number", "bool") + [0, 4, -1, 0.5]))
        elif k == "box":
            opts.append(((k,), wrong("dict")))
            for a in d[k]:
                if a == "label":
                    opts.append(((k, a), wrong("number", "bool", "list", "tuple") + [0.5]))
                    if isinstance(d[k][a], list):
                        opts.append(((k, a, rng.randrange(len(d[k][a]))), None, (k, a)))
                else:
                    opts.append(((k, a), wrong("list", "tuple") + [[0.0], [0.0, 1.0, 2.0], []]))
                    opts.append(((k, a, rng.randint(0, 1)), wrong("number"), (k, a)))
        elif k == "elements":
            opts.append(((k,), wrong("list", "tuple")))
            if d[k]:
                opts.append(((k, rng.randrange(len(d[k]))), wrong(), (k,)))
            else:
                opts.append(((k,), [[x] for x in wrong()]))
        elif k == "space_step":
            opts.append(((k,), wrong("number") + [-0.1, -1]))
        elif k == "scheme_velocity":
            opts.append(((k,), wrong("number", "expr") + [sp.Symbol("z") + 1]))
        elif k == "schemes":
            opts.append(((k,), wrong("list", "tuple")))
            for i, s in enumerate(d[k]):
                opts.append(((k, i), wrong("dict")))
                p = (k, i)
                for a in s:
                    q = p + (a,)
                    if a == "velocities":
                        opts.append((q, wrong("list", "tuple")))
                        opts.append((q + (rng.randrange(len(s[a])),), wrong("number", "bool") + [0.5, -1], q))
                    elif a == "M":
                        opts.append((q, wrong()))
                    elif a in ("polynomials", "relaxation_parameters", "equilibrium"):
                        opts.append((q, wrong("list", "tuple")))
                        opts.append((q + (rng.randrange(len(s[a])),), wrong("number", "expr"), q))
                    elif a == "feq":
                        opts.append((q, wrong() + [[some_function], [some_function, [], 1], [1, []], [some_function, 1]]))
                    elif a == "conserved_moments":
                        opts.append((q, wrong("expr", "list", "tuple")))
                        if isinstance(s[a], list):
                            opts.append((q + (rng.randrange(len(s[a])),), wrong("expr") + [sp.Symbol("z") + 1], q))
                    elif a == "source_terms":
                        opts.append((q, wrong("dict")))
                        for m in s[a]:
                            opts.append((q + (m,), wrong("number", "expr")))
                        opts.append((q + ("a",), [1], q))
        elif k == "parameters":
            opts.append(((k,), wrong("dict")))
            opts.append(((k, "a"), [1]))
            opts.append(((k, sp.Symbol("z")), wrong("number", "expr")))
        elif k == "inittype":
            opts.append(((k,), wrong() + ["moment", "Distributions"]))
        elif k == "init":
            opts.append(((k,), wrong("dict")))
            opts.append(((k, "a"), [1]))
            for m in d[k]:
                opts.append(((k, m), wrong("number", "func") + [[some_function], [1, []], [some_function, 1], [some_function, [], []]]))
        elif k == "boundary_conditions":
            opts.append(((k,), wrong("dict")))
            opts.append(((k, "a"), [{"method": {0: pylbm.bc.BounceBack}}]))
            for lab, b in d[k].items():
                q = (k, lab)
                opts.append((q, wrong("dict")))
                opts.append((q + ("method",), wrong("dict")))
                opts.append((q + ("method", "a"), [pylbm.bc.BounceBack]))
                for j in b["method"]:
                    opts.append((q + ("method", j), [NotABoundary, "BounceBack", Other(), 1, None, some_function, int]))
                opts.append((q + ("value",), [1, "text", some_object, [some_function], [1, None], [some_function, 1], [some_function, [], 1], {}]))
                opts.append((q + ("time_bc",), [v for v in wrong("bool") if v is not None]))
        elif k == "relative_velocity":
            opts.append(((k,), wrong("list", "tuple")))
            opts.append(((k, rng.randrange(len(d[k]))), wrong("number", "expr"), (k,)))
        elif k == "generator":
            opts.append(((k,), wrong() + ["fortran", "NumPy"]))
        elif k == "codegen_option":
            opts.append(((k,), wrong("dict")))
            opts.append(((k, "directory"), wrong("str")))
            opts.append(((k, "generate"), wrong("bool")))
        elif k == "lbm_algorithm":
            opts.append(((k,), wrong("dict")))
            opts.append(((k, "name"), [NotABoundary, "pull", 1, pylbm.bc.BounceBack, Other()]))
            opts.append(((k, "settings"), wrong("dict")))
        elif k == "show_code":
            opts.append(((k,), wrong("bool")))
    o = rng.choice(opts)
    path, values = o[0], o[1]
    mark = o[2] if len(o) == 3 else path
    v = rng.choice(values if values is not None else ["a", 0.5, None])
    put(d, path, v)
    return [mark]


some_object = Other()


def tree(text):
    """Paths of the entries of the message, with their marks: {path: marked}, and the paths without value."""
    out, lost = {}, set()
    stack = []
    for line in text.split("\n"):
        m = re.match(r"^(   |>>>)\| ( *)(.*)$", line)
        if not m:
            continue
        indent = len(m.group(2))
        body = m.group(3)
        k = re.match(r"^(.+?):(?: (.*))?$", body)
        if not k:
            continue
        while stack and stack[-1][0] >= indent:
            stack.pop()
        stack.append((indent, k.group(1).strip()))
        p = tuple(x[1] for x in stack)
        if (k.group(2) or "").startswith("???"):
            lost.add(p)
        out[p] = out.get(p, False) or m.group(1) == ">>>"
    return out, lost


def strs(path):
    return tuple(str(p) for p in path)


def run(case, rec):
    rng = pl.rng_of(case)
    spec, d = random_dico(rng)
    d = complete(rng, spec, d, rec)
    desc = {"seed": case["seed"], "dictionary": str(show(d))[:1500]}
    if case["kind"] == "valid":
        for name in CLASSES:
            x = d if name == "Simulation" and rng.random() < 0.7 else restrict(rng, d, name)
            if not accepted(case, rec, name, x, desc):
                return
        return
    for _ in range(36):
        name = rng.choice(CLASSES)
        x = restrict(rng, d, name) if rng.random() < 0.6 else dup(d)
        if name == "Geometry" and "dim" in x:
            continue
        marks, lost, what = [], [], []
        for k in range(1 if case["kind"] == "one" else 2):
            kind = rng.choice(["missing", "unknown", "exclusive", "replaced", "replaced", "replaced", "replaced"])
            try:
                if kind == "missing":
                    where, alt = missing(rng, x, name)
                    lost.append((where, alt))
                else:
                    m = {"unknown": unknown, "exclusive": exclusive, "replaced": replaced}[kind](rng, x)
                    if m is None:
                        continue
                    marks += m if isinstance(m, list) else [m]
            except (KeyError, TypeError, IndexError, ValueError, AttributeError):
                # the second change would be inside the first one
                if not what:
                    raise
                continue
            what.append(kind)
        if not what:
            continue
        if case["kind"] == "two" and len(what) == 2:
            rec.ev("two_errors")
        if not refused(rec, name, x, what, marks, lost, desc):
            return
    # a refusal has no effect on what comes next
    accepted(case, rec, rng.choice(CLASSES[:4]), d, desc)


def accepted(case, rec, name, x, desc):
    before = str(show(x))
    with listen() as out:
        s = Sut(rec, "a valid dictionary given to %s (seed %d)" % (name, case["seed"]), through=(SystemExit,))
        try:
            with s:
                with np.errstate(all="ignore"):
                    build(name, x)
        except SystemExit:
            rec.violate("valid-refused", "%s refuses a valid dictionary: %s" % (name, marked(out)), **dict(desc, given=before[:1500]))
            return False
    if s.failed:
        return False
    rec.ev("accepted")
    rec.ev("simulations_accepted", name == "Simulation")
    rec.state(name, "valid", len(x))
    if not rec.check(str(show(x)) == before, "dictionary-changed", "%s changes the dictionary of the user" % name, **desc):
        return False
    text = [m for lv, m in out if lv == logging.INFO]
    errors = [m for lv, m in out if lv >= logging.WARNING]
    if not rec.check(not errors, "valid-warned", "%s complains about a valid dictionary: %s" % (name, errors[:2]), **desc):
        return False
    if not rec.check(len(text) >= 2, "valid-unreported", "%s does not tell that it checked the dictionary" % name, **desc):
        return False
    t, lost = tree(text[1])
    ok = not lost and not any(t.values()) and all((str(k),) in t for k in x)
    return rec.check(ok, "valid-report", "the report of a valid dictionary given to %s is %s" % (name, text[1][:400]), **desc)


def unordered(marks):
    """Whether two wrong entries are in the same dictionary with keys which cannot be ordered."""
    a, b = marks[0], marks[-1]
    for p, q in zip(a, b):
        if p != q:
            return isinstance(p, sp.Symbol) or isinstance(q, sp.Symbol) or type(p) is not type(q)
    return False


def marked(out):
    return [line.strip() for lv, m in out for line in m.split("\n") if line.startswith(">>>")][:6]


def refused(rec, name, x, what, marks, lost, desc):
    given = str(show(x))[:1500]
    paths = [strs(m) for m in marks]
    where = "%s; the changes are %s, at %s, without %s" % (name, what, paths, lost)
    with listen() as out:
        s = Sut(rec, "a wrong dictionary given to " + where, through=(SystemExit,))
        try:
            with s:
                with np.errstate(all="ignore"):
                    try:
                        build(name, x)
                    except TypeError as e:
                        if len(what) == 2 and unordered(marks) and ("truth value of Relational" in str(e) or "'<' not supported" in str(e)):
                            rec.violate("report-of-unordered-keys", "%s: TypeError: %s" % (where, e), **dict(desc, given=given))
                            return True
                        raise
            if s.failed:
                return False
            rec.violate("wrong-accepted", "%s accepts a wrong dictionary: %s" % (name, where), **dict(desc, given=given))
            return False
        except SystemExit:
            pass
    rec.ev("refused")
    for w in what:
        rec.ev(w)
    for m in paths:
        rec.state(name, tuple("#" if k.lstrip("-").isdigit() else k for k in m)[:4], what[0])
    for w, alt in lost:
        rec.state(name, "missing", alt)
    text = [m for lv, m in out if lv >= logging.ERROR]
    if not rec.check(len(text) >= 2 and name in text[0], "wrong-unreported", "the refusal is not reported: %s" % where, **dict(desc, given=given)):
        return False
    t, miss = tree(text[1])
    if len(what) == 1:
        for m in paths:
            # the entry, or the deepest of its parents which has an error of its own
            ok = any(t.get(m[:k]) for k in range(len(m), 0, -1)) and t.get(m[:1])
            if not rec.check(ok, "wrong-unmarked", "the report does not show the entry %s, which is wrong: %s" % ("/".join(m), text[1][:600]), **dict(desc, given=given)):
                return False
        for w, alt in lost:
            ok = any(strs(w) + (a,) in miss for a in alt)
            if not rec.check(ok, "wrong-unmarked", "the report does not show that %s is missing: %s" % ("/".join(strs(w) + (alt[0],)), text[1][:600]), **dict(desc, given=given)):
                return False
    good = {m[:1] for m in paths} | {strs(w)[:1] for w, alt in lost if w} | {(a,) for w, alt in lost if not w for a in alt}
    if good & {("dim",), ("box",)}:
        good |= {("dim",), ("box",)}
    other = [p for p, v in t.items() if v and p[:1] not in good]
    return rec.check(not other, "right-marked", "the report shows %s, which is right: %s" % (other, where), **dict(desc, given=given))
