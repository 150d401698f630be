"""Shared machinery of the checks.

A check is a program `harness/check_<id>.py`.  It asks the specification
(/verif/spec, Quint) for scenarios, replays them against exoplanet's public
API as it stands in /repo's working tree, and has the specification judge the
recorded trace.  Nothing in here decides anything about exoplanet: numbers are
only moved between floats and the specification's fixed-point integers.
"""
import json
import math
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

os.environ["PYTENSOR_FLAGS"] = (
    "floatX=float64,cxx=,mode=FAST_COMPILE,on_opt_error=raise"
)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

sys.set_int_max_str_digits(0)
S = 10**18
FIELD_BASE = 10**34
FIELD_OFF = 5 * 10**33
NAN = -FIELD_OFF

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    """The check itself failed; this is never a verdict about exoplanet."""


# ---------------------------------------------------------------- numbers
def q(x):
    """The fixed-point integer of a float (rounded to 1e-18)."""
    x = float(x)
    if not math.isfinite(x) or abs(x) > 1e14:
        return NAN
    n, d = x.as_integer_ratio()
    return (2 * n * S + d) // (2 * d)


def fl(v):
    """The float nearest to a fixed-point integer."""
    return v / S


def pack(fields):
    r = 0
    for f in reversed(fields):
        d = f + FIELD_OFF
        if not (0 <= d < FIELD_BASE):
            d = 0
        r = r * FIELD_BASE + d
    return r


def digits(fields):
    r = "%d" % pack(fields)
    return r


# ---------------------------------------------------------------- quint
def unitf(x):
    """ITF value -> Python value."""
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return tuple(unitf(v) for v in x["#tup"])
        if "#set" in x:
            return [unitf(v) for v in x["#set"]]
        if "#map" in x:
            out = {}
            for k, v in x["#map"]:
                k = unitf(k)
                out[k] = unitf(v)
            return out
        return {k: unitf(v) for k, v in x.items() if k != "#meta"}
    if isinstance(x, list):
        return [unitf(v) for v in x]
    return x


class Scratch:
    """A scratch directory with a copy of the specification."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="xoverif_")
        for f in os.listdir(SPEC):
            if f.endswith(".qnt"):
                shutil.copy(os.path.join(SPEC, f), self.path)

    def write(self, name, text):
        p = os.path.join(self.path, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def quint(scratch, args, timeout=800):
    p = subprocess.run(
        ["quint"] + args,
        cwd=scratch.path,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=timeout,
        text=True,
    )
    return p.returncode, p.stdout


def quint_states(scratch, file, main, steps, seed, out, samples=1, extra=()):
    """Run one random behaviour and return its states (variable -> value)."""
    rc, txt = quint(
        scratch,
        [
            "run",
            "--main",
            main,
            "--max-steps",
            str(steps),
            "--max-samples",
            str(samples),
            "--seed",
            str(seed),
            "--verbosity",
            "1",
            "--out-itf",
            out,
        ]
        + list(extra)
        + [file],
    )
    p = os.path.join(scratch.path, out)
    if rc != 0 or not os.path.exists(p):
        raise MachineryError("quint run failed on %s:\n%s" % (file, txt[-3000:]))
    with open(p) as f:
        data = json.load(f)
    os.unlink(p)
    states = []
    for s in data["states"]:
        states.append(
            {
                k.split("::")[-1]: unitf(v)
                for k, v in s.items()
                if k != "#meta"
            }
        )
    return states


def generate(scratch, module, plan, seed):
    """Scenarios of a generator module.  The plan is a list of (constants,
    number of steps); each is split over some random behaviours of the module.
    Returns one list of states for each entry of the plan."""
    total = sum(n for _, n in plan) or 1
    jobs = []
    for k, (consts, n) in enumerate(plan):
        shards = max(1, min(n, round(NPROC * n / total)))
        per = max(1, -(-n // shards))
        jobs += [(k, consts, per)] * shards

    def one(job):
        i, (k, consts, per) = job
        inst = ", ".join("%s = %s" % kv for kv in consts.items())
        inst = "(%s)" % inst if inst else ""
        name = "gen_%s_%d" % (module, i)
        scratch.write(
            name + ".qnt",
            'module %s { import %s%s.* from "./%s" }\n'
            % (name, module, inst, module),
        )
        return quint_states(
            scratch,
            name + ".qnt",
            name,
            per,
            (seed * 1000003 + i * 7919 + 17) % (2**52),
            name + ".itf.json",
        )

    out = [[] for _ in plan]
    with ThreadPoolExecutor(NPROC) as ex:
        for (k, _, _), part in zip(jobs, ex.map(one, enumerate(jobs))):
            out[k] += part
    return out


def invariants(scratch, module, inv, steps, seed, samples=1, timeout=800):
    """Check the specification's own theorems on random behaviours."""
    rc, txt = quint(
        scratch,
        [
            "run",
            "--main",
            module,
            "--invariant",
            inv,
            "--max-steps",
            str(steps),
            "--max-samples",
            str(samples),
            "--seed",
            str(seed),
            "--verbosity",
            "1",
            module + ".qnt",
        ],
        timeout=timeout,
    )
    if rc != 0:
        raise MachineryError(
            "the specification's own invariant failed: %s\n%s"
            % (module, txt[-3000:])
        )
    return steps * samples


def judge(scratch, module, sessions, shards=None, extra_consts=None, chunk=60):
    """Validate recorded sessions (lists of events, each a list of ints).

    Returns (failures, seen): failures is a list of (session index, event index
    within the session, clause) and seen counts how often each clause was
    judged.
    """
    shards = shards or NPROC
    shards = max(1, min(shards, len(sessions)))
    order = sorted(range(len(sessions)), key=lambda i: -len(sessions[i]))
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += len(sessions[i])

    def one(k):
        evs, where = [], []
        for i in bins[k]:
            for j, e in enumerate(sessions[i]):
                evs.append(digits(e))
                where.append((i, j))
        if not evs:
            return [], {}
        lists = [evs[a : a + chunk] for a in range(0, len(evs), chunk)]
        name = "judge_%s_%d" % (module, k)
        data = "".join(
            "  pure val T%d: List[int] = [\n    %s ]\n"
            % (n, ",\n    ".join(x))
            for n, x in enumerate(lists)
        )
        expr = "T0" + "".join(".concat(T%d)" % n for n in range(1, len(lists)))
        inst = "TRACE = TR"
        for kv in (extra_consts or {}).items():
            inst += ", %s = %s" % kv
        scratch.write(
            name + ".qnt",
            "module %s {\n%s  pure val TR: List[int] = %s\n"
            '  import %s(%s).* from "./%s"\n}\n'
            % (name, data, expr, module, inst, module),
        )
        states = quint_states(
            scratch,
            name + ".qnt",
            name,
            len(evs),
            1,
            name + ".itf.json",
        )
        last = states[-1]
        if last["l"] != len(evs):
            raise MachineryError(
                "the trace of %s was not consumed: %s of %d events"
                % (name, last["l"], len(evs))
            )
        fails = [where[f["l"]] + (f["clause"],) for f in last["fails"]]
        return fails, last["seen"]

    fails, seen = [], {}
    with ThreadPoolExecutor(NPROC) as ex:
        for f, s in ex.map(one, range(shards)):
            fails += f
            for c, n in s.items():
                seen[c] = seen.get(c, 0) + n
    fails.sort()
    return fails, seen


def model_check(scratch, file, main, inv, timeout=800, extra=()):
    """Exhaustive check with TLC through `quint verify`; returns
    (transitions, distinct states)."""
    import re
    import socket

    for _ in range(3):
        # (another check may be using the default port)
        with socket.socket() as s:
            s.bind(("localhost", 0))
            port = s.getsockname()[1]
        rc, txt = quint(
            scratch,
            ["verify", "--backend", "tlc", "--server-endpoint", "localhost:%d" % port, "--main", main, "--invariant", inv]
            + list(extra)
            + [file],
            timeout=timeout,
        )
        if rc == 0 or "in use" not in txt:
            break
    if rc != 0:
        raise MachineryError(
            "quint verify rejected the specification %s:\n%s"
            % (file, txt[-4000:])
        )
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", txt)
    if not m:
        m = re.findall(r"([\d,]+) states generated[^\d]*([\d,]+) distinct", txt)
    if not m:
        raise MachineryError("no state count in the output of TLC:\n" + txt[-2000:])
    a, b = (int(x.replace(",", "")) for x in m[-1])
    i = re.findall(r"initial states: ([\d,]+)", txt)
    return a - (int(i[0].replace(",", "")) if i else 1), b


# ---------------------------------------------------------------- replaying
_FN = None


def _call(i):
    try:
        return ("ok", _FN[0](_FN[1][i]))
    except MachineryError as e:
        return ("machinery", str(e))
    except Exception:
        return ("machinery", traceback.format_exc())


def pmap(fn, items, nproc=None, fresh=False):
    """Run fn over items in forked worker processes (import exoplanet first),
    or each in a process of its own."""
    global _FN
    items = list(items)
    if not items:
        return []
    _FN = (fn, items)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(nproc or NPROC, len(items)), maxtasksperchild=1 if fresh else None) as pool:
        out = pool.map(_call, range(len(items)), chunksize=1)
    bad = [m for k, m in out if k == "machinery"]
    if bad:
        raise MachineryError("a replay worker failed:\n" + bad[0])
    return [m for _, m in out]


def import_exoplanet():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    import numpy

    numpy.seterr(all="ignore")
    # Everything but exoplanet itself may come from cached byte code
    import astropy.units  # noqa: F401
    import pymc  # noqa: F401

    try:
        import exoplanet_core.pymc  # noqa: F401
    except ImportError:
        pass
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "xoverif_none")
    name = "exoplanet.exoplanet_version"
    if not os.path.exists(os.path.join(REPO, "src", *name.split(".")) + ".py"):
        mod = type(sys)(name)  # written by the build, ignored by git
        mod.__version__ = "0"
        sys.modules[name] = mod
    import exoplanet

    logging.getLogger("pytensor").setLevel(logging.CRITICAL)
    f = os.path.realpath(exoplanet.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise MachineryError("exoplanet was imported from %s" % f)
    return exoplanet


_MODE = None


def evaluate(outs, inputs=(), values=()):
    """Evaluate tensors (in one function, without graph rewriting)."""
    global _MODE
    import pytensor
    import pytensor.tensor as pt
    from pytensor.compile.mode import Mode

    if _MODE is None:
        _MODE = Mode(linker="py", optimizer=None)
    outs = [pt.as_tensor_variable(o) for o in outs]
    f = pytensor.function(
        list(inputs), outs, mode=_MODE, on_unused_input="ignore"
    )
    return f(*values)


# ---------------------------------------------------------------- reporting
class Check:
    """Book-keeping of one run of one check."""

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.scratch = Scratch()
        self.timings = {}
        self._tick = time.time()

    def tick(self, name):
        now = time.time()
        self.timings[name] = round(now - self._tick, 2)
        self._tick = now

    def known_findings(self):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [
                k
                for k in json.load(f).get("findings", [])
                if k["property"] == self.pid
            ]

    def violation(self, clause, what, replay):
        """Record one failure of a clause, with everything needed to replay."""
        for k in self.known_findings():
            if k["clause"] == clause and all(
                replay.get(f) == v for f, v in k.get("match", {}).items()
            ):
                self.known.append(k["what"])
                return
        self.violations.append((clause, what, replay))

    def finish(self):
        self.scratch.close()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.coverage)
        cov["timings_s"] = self.timings
        ev = dict(
            property=self.pid,
            tier=TIER if TIER in ("quick", "thorough") else "quick",
            seed=SEED,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations),
        )
        with open(
            os.path.join(VERIF, "evidence", self.pid + ".json"), "w"
        ) as f:
            json.dump(ev, f, indent=1, default=str)
        for w in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            by = {}
            for c, w, r in self.violations:
                by.setdefault(c, []).append((w, r))
            for c, xs in sorted(by.items()):
                p = os.path.join(d, "%s-%s.json" % (self.pid, c))
                with open(p, "w") as f:
                    json.dump(
                        dict(
                            property=self.pid,
                            clause=c,
                            seed=SEED,
                            count=len(xs),
                            cases=[dict(what=w, replay=r) for w, r in xs[:5]],
                        ),
                        f,
                        indent=1,
                        default=str,
                    )
                print("clause %s failed %d times: %s" % (c, len(xs), xs[0][0]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print(
            "OK property=%s (%.1f s) %s"
            % (self.pid, time.time() - self.t0, json.dumps(self.timings))
        )
        return 0


def main(fn):
    """Run a check; anything unexpected is a machinery error (exit 2)."""
    try:
        rc = fn()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
