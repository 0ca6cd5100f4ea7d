"""Driver of a check.

A check is a module of /verif/checks which defines

    ID, RULE              identification, and what makes a case non-trivial
    cases(tier, seed)     the deterministic list of JSON-able workloads
    run(case, rec)        executes the real pylbm on one workload under monitors
    MINIMUM               {counter: least value for a verdict}; below it the run
                          is inconclusive, never "held"

The driver runs the cases in fresh worker processes (one scratch directory each,
removed at the end), collects what the monitors observed, writes the evidence
file and gives the verdict: 0 held, 1 violated (with VIOLATION lines and a replay
file per mechanism), 3 inconclusive.
"""

import argparse
import hashlib
import importlib
import json
import os
import queue
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


def clean_env(scratch=None):
    env = dict(os.environ)
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME="/root",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        PYTHONPATH=REPO + os.pathsep + VERIF,
        VERIF_REPO=REPO,
    )
    if scratch:
        env["TMPDIR"] = scratch
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


class Rec:
    """What the monitors of one case observed."""

    def __init__(self):
        self.events = {}
        self.states = set()
        self.samples = []
        self.violations = []

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def violate(self, mech, msg, **detail):
        if len(self.violations) < 20:
            self.violations.append(
                {"mech": mech, "msg": str(msg)[:1500], "detail": _plain(detail)}
            )

    def check(self, ok, mech, msg, **detail):
        self.ev("oracle_evaluations")
        if not ok:
            self.violate(mech, msg, **detail)
        return bool(ok)

    def out(self):
        return {
            "events": self.events,
            "states": sorted(self.states),
            "samples": _plain(self.samples),
            "violations": self.violations,
        }


def _plain(o):
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_plain(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "tolist"):
        return _plain(o.tolist())
    return str(o)


def sut_exception(rec, exc, what=""):
    """Attribute an exception: raised under pylbm's code -> a violation, else re-raise.

    Every workload of a check is one that the property says must work, so pylbm
    dying on it (SystemExit included) refutes the property.
    """
    frames = traceback.extract_tb(exc.__traceback__)
    sut = [f for f in frames if os.path.realpath(f.filename).startswith(REPO + os.sep)]
    gen = [f for f in frames if "wrapped_module" in f.filename or "_sympy_compile" in f.filename]
    if not sut and not gen:
        return False
    where = (sut or gen)[-1]
    rec.violate(
        "exception",
        "%s: %s: %s (in %s)" % (what, type(exc).__name__, str(exc)[:600], where.name),
        trace=["%s:%s" % (os.path.basename(f.filename), f.name) for f in frames[-12:]],
    )
    return True


class Sut:
    """Context manager: exceptions that come out of pylbm become violations."""

    def __init__(self, rec, what="", through=()):
        self.rec, self.what, self.failed = rec, what, False
        self.through = (KeyboardInterrupt,) + tuple(through)

    def __enter__(self):
        return self

    def __exit__(self, typ, exc, tb):
        if exc is None or isinstance(exc, self.through):
            return False
        if sut_exception(self.rec, exc, self.what):
            self.failed = True
            return True
        return False


# ---------------------------------------------------------------------------
# worker side


def worker_main():
    """python -m vlib.core MODULE : cases on stdin, answers on fd 3."""
    modname = sys.argv[1]
    sys.argv = ["verif-worker"]
    out = os.fdopen(int(os.environ.pop("VERIF_FD")), "w", buffering=1)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    try:
        mod = importlib.import_module("checks." + modname)
    except BaseException as e:  # the tree does not even import
        rec = Rec()
        tb = traceback.format_exc()
        if sut_exception(rec, e, "import"):
            out.write(json.dumps({"fatal": rec.out()["violations"]}) + "\n")
        else:
            out.write(json.dumps({"error": tb}) + "\n")
        out.flush()
        return
    for line in sys.stdin:
        case = json.loads(line)
        rec = Rec()
        t0 = time.time()
        ans = {}
        try:
            random.seed(case.get("seed", 0))
            mod.run(case, rec)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            if not sut_exception(rec, e, case.get("kind", "")):
                ans["error"] = traceback.format_exc()
        ans.update(rec.out())
        ans["wall"] = time.time() - t0
        out.write(json.dumps(ans) + "\n")
        out.flush()


# ---------------------------------------------------------------------------
# driver side


class Worker:
    def __init__(self, modname, scratch, idx):
        self.modname, self.scratch, self.idx = modname, scratch, idx
        self.p = None
        self.n = 0

    def start(self):
        self.n += 1
        self.cwd = os.path.join(self.scratch, "w%d_%d" % (self.idx, self.n))
        os.makedirs(self.cwd)
        self.log = open(os.path.join(self.cwd, "log"), "wb")
        r, w = os.pipe()
        env = clean_env(self.cwd)
        env["VERIF_FD"] = str(w)
        self.p = subprocess.Popen(
            [PY, "-m", "vlib.core", self.modname],
            stdin=subprocess.PIPE,
            stdout=self.log,
            stderr=self.log,
            cwd=self.cwd,
            env=env,
            pass_fds=(w,),
            start_new_session=True,
        )
        os.close(w)
        self.r = r
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            os.close(self.r)
            self.log.close()
            self.p = None
            shutil.rmtree(self.cwd, ignore_errors=True)

    def tail(self):
        try:
            self.log.flush()
            with open(self.log.name, "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""

    def ask(self, case, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"timeout": timeout}
            ready, _, _ = select.select([self.r], [], [], min(left, 5))
            if ready:
                data = os.read(self.r, 1 << 16)
                if not data:
                    rc = self.p.wait()
                    tail = self.tail()
                    self.stop()
                    return {"died": rc, "tail": tail}
                self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of the case kind")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    modname = a.prop.lower()
    sys.path.insert(0, VERIF)
    t0 = time.time()

    spec = _spec(modname)
    ID = spec["ID"]
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)["case"]]
    else:
        cases = _cases(modname, tier, a.seed)
    if a.only:
        cases = [c for c in cases if a.only in str(c.get("kind"))]
    budget = spec["BUDGET"][tier]
    case_timeout = spec["CASE_TIMEOUT"]

    scratch = tempfile.mkdtemp(prefix="verif_%s_" % ID)
    try:
        res = _run_all(modname, cases, scratch, min(a.workers, spec.get("WORKERS") or 8), t0 + budget, case_timeout, a.v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    return _verdict(ID, tier, a, spec, cases, res, t0)


def _spec(modname):
    """Ask a child for the module constants, so that the driver never imports pylbm."""
    code = (
        "import sys,json,importlib;sys.argv=['x'];sys.path.insert(0,%r);sys.path.insert(0,%r);"
        "import checks.meta as m;print(json.dumps(m.get(%r)))" % (REPO, VERIF, modname)
    )
    r = subprocess.run([PY, "-c", code], capture_output=True, text=True, env=clean_env())
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        sys.exit(2)
    return json.loads(r.stdout.strip().splitlines()[-1])


def _cases(modname, tier, seed):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks.wl_" + modname)
    return mod.cases(tier, seed)


def _run_all(modname, cases, scratch, nw, deadline, case_timeout, verbose):
    q = queue.Queue()
    for i, c in enumerate(cases):
        q.put((i, c))
    res = {}
    lock = threading.Lock()
    stop = threading.Event()

    def loop(idx):
        w = Worker(modname, scratch, idx)
        try:
            while not stop.is_set():
                if time.time() > deadline:
                    break
                try:
                    i, c = q.get_nowait()
                except queue.Empty:
                    break
                left = max(30.0, min(case_timeout, deadline + 60 - time.time()))
                ans = w.ask(c, left)
                if "fatal" in ans or ("error" in ans and "events" not in ans):
                    w.stop()
                with lock:
                    res[i] = ans
                    if verbose:
                        sys.stderr.write(
                            "case %d %s: %s %s\n"
                            % (
                                i,
                                json.dumps(c)[:150],
                                "%.1fs" % ans.get("wall", -1),
                                {k: v for k, v in ans.items() if k in ("violations", "error", "timeout", "died", "tail", "fatal") and v},
                            )
                        )
                    nviol = sum(len(r.get("violations") or r.get("fatal") or ()) > 0 for r in res.values())
                    if nviol >= 25:
                        stop.set()
        finally:
            w.stop()

    threads = [threading.Thread(target=loop, args=(k,)) for k in range(min(nw, max(1, len(cases))))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return res


def _verdict(ID, tier, a, spec, cases, res, t0):
    known = load_known(ID)
    events, states, samples = {}, set(), []
    viol, errors, timeouts = [], [], 0
    for i in sorted(res):
        r = res[i]
        if "timeout" in r:
            timeouts += 1
            continue
        if "died" in r:
            viol.append((i, {"mech": "process-died", "msg": "the process running pylbm died, status %s" % r["died"], "detail": r["tail"][-1500:]}))
            continue
        if "fatal" in r:
            viol.extend((i, v) for v in r["fatal"])
            continue
        if "error" in r:
            errors.append(r["error"])
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        states.update(r.get("states", ()))
        for s in r.get("samples", ()):
            if len(samples) < 6:
                samples.append(s)
        viol.extend((i, v) for v in r.get("violations", ()))

    kmech = {k["mechanism"]: k for k in known if k.get("status") == "known"}
    new, seen_known = [], {}
    for i, v in viol:
        if v["mech"] in kmech:
            seen_known.setdefault(v["mech"], (i, v))
        else:
            new.append((i, v))
    # the least values that make a run a verdict: for the listed tier
    short = {}
    if not a.replay and not a.only:
        for k, m in spec["MINIMUM"].items():
            if events.get(k, 0) < m:
                short[k] = (events.get(k, 0), m)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": ID,
        "tier": tier,
        "seed": a.seed,
        "level": spec.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(res) - timeouts,
            "distinct_nontrivial": len(states),
            "rule": spec["RULE"],
            "samples": samples or [c for c in cases[:2]],
            "monitor_events": dict(sorted(events.items())),
            "cases_planned": len(cases),
            "cases_timed_out": timeouts,
            "harness_errors": len(errors),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": spec.get("ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if not a.replay and not a.only:
        with open(os.path.join(VERIF, "evidence", ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for mech in kmech:
        if mech in seen_known:
            print("KNOWN-FINDING: property=%s %s: %s" % (ID, mech, kmech[mech]["what"]))
    print(
        "%s tier=%s seed=%d: %d/%d cases, %d distinct states, %d new violations, %d errors, %d timeouts, %.1fs"
        % (ID, tier, a.seed, len(res), len(cases), len(states), len(new), len(errors), timeouts, time.time() - t0)
    )
    print("  observed: " + json.dumps(dict(sorted(events.items()))))
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay", ID)
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for i, v in new:
            if v["mech"] in done or len(done) > 5:
                continue
            done.add(v["mech"])
            path = os.path.join(rdir, "%s_seed%d_case%d.json" % (v["mech"].replace("/", "_")[:60], a.seed, i))
            with open(path, "w") as f:
                json.dump({"property": ID, "case": cases[i], "violation": v, "tier": tier, "seed": a.seed}, f, indent=1)
            print("  [%s] %s" % (v["mech"], v["msg"][:700]))
            print("VIOLATION property=%s replay=%s" % (ID, path))
        return 1
    if errors:
        sys.stderr.write("harness errors:\n" + "\n".join(errors[:3]) + "\n")
        return 2
    if short:
        sys.stderr.write("inconclusive: the monitors observed too little: %r\n" % short)
        return 3
    return 0


if __name__ == "__main__":
    worker_main()
