"""C11: results depend on the inputs alone and leave the process as it was."""
import gc
import os
import shutil

import numpy as np
import pandas as pd

from .. import core, procstate, seams, world
from ..util import call, pick, same, short
from . import c05

ID = "C11"
RULE = ("seeded sequences of 2-5 calls from the whole public interface computed in a pristine process, in a used process with other random-number states, working directory and time zone after unrelated use, "
        "and in interpreters with other string-hash seeds, clocks (decades ahead, behind and 50x fast, stopped) and time zones, and compared; process-wide state compared around every call, including "
        "calls that fail by injected solver, linear-algebra, clustering, disk and print failures and Ctrl-C; distinct = event-log digest")
RUNS = {"quick": 3200, "thorough": 100000}
BATCH = 30
ZYGOTE = True
COMPONENTS = {"real": ["all of pypfopt", "cvxpy and its solvers", "pandas", "scipy", "scikit-learn", "matplotlib (Agg)"],
              "stub": ["system clock (LD_PRELOAD)", "string-hash seed, time zone, directory, RNG states", "cvxpy.Problem.solve, numpy.linalg and clustering wrappers", "disk", "stdout"]}
ASSUMPTIONS = ["OSQP's clock-driven step adaptation is pinned", "min_cov_determinant gets a random_state"]
IMPORT_DIFF = None


def generate(rng, i, tier):
    scn = c05.generate(rng, i, tier)
    scn["ops"] = scn["ops"][: rng.randint(2, 5)]
    scn["mode"] = pick(rng, [(3, "results"), (2, "state")])
    if scn["mode"] == "results":
        for op in scn["ops"]:
            op["faults"] = []
        scn["world"] = rng.choice([None, 0, 1, 2])
        scn["tz"] = rng.choice(["UTC", "Asia/Tokyo", "America/Lima"])
        scn["rng"] = rng.randrange(10**6)
        x = rng.random()
        focus = rng.random() < 0.5
        if focus:  # one optimiser and a few of its methods
            k = pick(rng, [(4, "EfficientFrontier"), (1, "EfficientSemivariance"), (1, "EfficientCVaR"), (1, "EfficientCDaR"), (1, "bl"), (1, "cla"), (1, "hrp"), (1, "alloc")])
            ops = [dict(scn["ops"][0], op=("new" if k.startswith("Eff") else "") + k, pick=rng.randrange(10**5))]
            for _ in range(rng.randint(1, 2)):
                p = rng.randrange(10**5)
                if k.startswith("Eff") and rng.random() < 0.7:  # the optimisation methods
                    while p // 3 % 21 > 4 or p % 13 < 4:
                        p = rng.randrange(10**5)
                ops.append(dict(scn["ops"][0], op=k, pick=p))
            scn["ops"] = ops
            scn["world"] = None if rng.random() < 0.7 else scn["world"]
            x = rng.uniform(0.22, 0.84)
        if x < 0.3:
            p = c05.generate(rng, i, tier)
            scn["prior"] = {k: v for k, v in dict(p, ops=p["ops"][:3]).items()}
        elif x < 0.75:  # the same calls on other data, discarded since
            scn["prior"] = dict({k: v for k, v in scn.items() if k not in ("prior", "mode", "world", "tz", "rng")}, seed=rng.randrange(10**9), vol=rng.choice([0.25, 1, 1, 2.5]))
            scn["reuse"] = rng.random() < (0.75 if focus else 0.5)  # the data is put into the very objects that held the other data
    return scn


def canon(v, depth=0):
    """The numbers and labels in a result."""
    import matplotlib.axes as ma

    if isinstance(v, pd.DataFrame):
        return ("frame", [str(c) for c in v.columns], [str(c) for c in v.index], v.to_numpy(dtype=float, na_value=np.nan))
    if isinstance(v, pd.Series):
        return ("series", [str(c) for c in v.index], v.to_numpy(dtype=float, na_value=np.nan))
    if isinstance(v, np.ndarray):
        return ("array", np.asarray(v, float))
    if isinstance(v, dict):
        return ("dict", [str(k) for k in v], [canon(x) for x in v.values()])
    if isinstance(v, (list, tuple)):
        return ("list", [canon(x) for x in v])
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, ma.Axes):
        out = [np.array(ln.get_xydata(), float) for ln in v.lines] + [np.array(c.get_offsets(), float) for c in v.collections] + [np.array([[p.get_x(), p.get_y(), p.get_width(), p.get_height()] for p in v.patches if hasattr(p, "get_x")])]
        return ("axes", out + [np.asarray(im.get_array(), float) for im in v.images], [t.get_text() for t in v.texts], [t.get_text() for t in v.get_xticklabels()], [t.get_text() for t in v.get_yticklabels()])
    w = getattr(v, "weights", None)
    if w is not None and depth == 0:
        return (type(v).__name__, canon(np.asarray(w, float)))
    return type(v).__name__


def compute(scn, d=None, look=None):
    """The results of all calls of a scenario in this process as it is."""
    import matplotlib.pyplot as plt
    import warnings

    own = d is None
    d = d or world.scratch()
    out = []
    try:
        W = c05.World(scn)
        for k, op in enumerate(scn["ops"]):
            out.append(one(W, op, d, k)[0])
            plt.close("all")
            if look:
                gc.collect()
                look(f"{op['op']} #{op['pick']}")
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)
    return out


def prepare(W, op, d, k):
    op = dict(op, file=os.path.join(d, f"w{k}" + (".png" if op["op"] == "plots" else [".csv", ".json", ".txt"][op["pick"] % 3])))
    return op, c05.OPS[op["op"]][1](W, op)


def one(W, op, d, k, ctx=None):
    op, fn = prepare(W, op, d, k)
    if ctx is None:
        ctx = core.Ctx(ID)
    r = call(ctx, (), fn)
    res = ("ok", canon(r.value)) if r.ok else ("exc", type(r.exc).__name__)
    if not op["file"].endswith("png") and os.path.exists(op["file"]):
        with open(op["file"], "rb") as f:
            res += (f.read(),)
    return res, r


def equal(a, b, tol):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    return a == b


def elsewhere(scn):
    import random
    import time

    r = np.random.default_rng(scn["seed"])
    np.random.seed(int(r.integers(2**31)))
    random.seed(int(r.integers(2**31)))
    return compute(scn), IMPORT_DIFF, time.time()


def execute(scn, ctx):
    import random
    import time
    import warnings

    import matplotlib.pyplot as plt

    seams.LIMIT = 5_000_000
    d = world.scratch()
    cwd0, root0, tz0 = os.getcwd(), seams.DISK_ROOT, os.environ.get("TZ")
    np0, py0 = np.random.get_state(), random.getstate()
    try:
        ctx.nontrivial = True
        seams.DISK_ROOT = d
        if scn["mode"] == "state":
            state_run(scn, ctx, d)
            return
        base = core.isolated(__name__, "compute", scn)
        # here: other RNG states, directory and time zone, after unrelated use
        g = np.random.default_rng(scn["rng"])
        np.random.seed(int(g.integers(2**31)))
        random.seed(int(g.integers(2**31)))
        os.chdir(d)
        os.environ["TZ"] = scn["tz"]
        time.tzset()
        old = {}
        if "prior" in scn:
            P = c05.World(scn["prior"])
            for k, op in enumerate(scn["prior"]["ops"]):
                o, fn = prepare(P, op, d, 90 + k)
                call(ctx, op["faults"], fn)
                ctx.count("unrelated calls before")
            plt.close("all")
            old = P.owned if scn.get("reuse") else {}
            P = o = fn = None  # noqa: freed, so that the addresses of its data are used again
            gc.collect()
        W = c05.World(scn)
        W.buffers = old
        for k, op in enumerate(scn["ops"]):
            gc.collect()  # files of interrupted earlier calls
            before = procstate.snapshot()
            res, r = one(W, op, d, k, ctx)
            same_state(ctx, before, op, r)
            plt.close("all")
            compare(ctx, op, k, base[k], res, "in a used process with other random states, directory and time zone")
            ctx.log(k, op["op"], op["pick"], r.ok)
            ctx.state(op["op"], op["pick"] % 97, r.ok, scn["world"], "prior" in scn)
        if scn["world"] is not None:
            other, imported, now = world.ask(scn["world"], "elsewhere", scn)
            ctx.check(not imported, "import-or-first-use-changes-the-process", lambda: str(imported))
            cfg = world.CONFIGS[scn["world"]]
            for k, op in enumerate(scn["ops"]):
                compare(ctx, op, k, base[k], other[k], f"with {cfg}")
            ctx.count("computed with another hash seed and clock", len(scn["ops"]))
            if abs(now - time.time()) > 1000:
                ctx.count("fault:clock:jump")
    finally:
        seams.DISK_ROOT = root0
        os.chdir(cwd0)
        if tz0 is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = tz0
        time.tzset()
        np.random.set_state(np0)
        random.setstate(py0)
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")


def compare(ctx, op, k, want, got, where):
    exact = op["op"] in EXACT
    ctx.check(equal(want, got, 1e-12 if exact else 1e-7), "depends-on-environment", lambda: f"{op['op']} #{op['pick']} (call {k}) gave {short(got, 700)} {where}, {short(want, 700)} in a fresh process")
    ctx.count("results compared")


EXACT = set(c05.OPS) - {"simple", "alloc", "plots", "EfficientFrontier", "EfficientSemivariance", "EfficientCVaR", "EfficientCDaR", "bl", "cla", "hrp"}


def same_state(ctx, before, op, r):
    if not r.ok and r.exc is not None:  # the recorded exception must not keep frames, and their files, alive
        e, seen = r.exc, set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            e.__traceback__ = None
            e = e.__cause__ or e.__context__
        gc.collect()
    after = procstate.snapshot()
    bad = procstate.diff(before, after)
    ctx.check(not bad, "process-state-changed", lambda: f"{op['op']} #{op['pick']} ({r!r}, fired {r.fired}) changed {bad}: {explain(before[bad[0]], after[bad[0]])}")
    ctx.count("process states compared")


def explain(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        x = [v for v in a if v not in b][:4], [v for v in b if v not in a][:4]
        return short(x, 800)
    return short((a, b), 800)


def state_run(scn, ctx, d):
    import matplotlib.pyplot as plt

    W = c05.World(scn)
    for k, op in enumerate(scn["ops"]):
        o, fn = prepare(W, op, d, k)
        gc.collect()
        before = procstate.snapshot()
        r = call(ctx, op["faults"], fn)
        same_state(ctx, before, op, r)
        plt.close("all")
        for f in r.fired:
            ctx.probe("state compared after " + f["site"] + " " + f["kind"])
        ctx.log(k, op["op"], op["pick"], r.ok, [f["kind"] for f in r.fired])
        ctx.state(op["op"], op["pick"] % 97, r.ok, tuple(f["site"] + f["kind"] for f in r.fired))


def shrink(scn):
    if "prior" in scn:
        yield {k: v for k, v in scn.items() if k not in ("prior", "reuse")}
        if scn.get("reuse"):
            yield dict(scn, reuse=False)
    if scn.get("world") is not None:
        yield dict(scn, world=None)
    yield from c05.shrink(scn)


def warm(look=None):
    """Third-party modules are loaded, lazily initialised and cached before anything is compared."""
    import matplotlib.pyplot as plt
    import random
    import sklearn.covariance  # noqa

    np0, py0 = np.random.get_state(), random.getstate()
    rng = core.rng_for("warm")
    for i in range(25):
        scn = c05.generate(rng, i, "quick")
        for op in scn["ops"]:
            op["faults"] = []
        compute(scn, None, look)
    scn = c05.generate(rng, 0, "quick")
    for kind in c05.OPS:  # every variety of call at least once
        for p in range(28 if kind == "plots" else 0):
            compute(dict(scn, ops=[{"op": kind, "pick": p, "data": "prices", "faults": []}]), None, look)
    plt.close("all")
    np.random.set_state(np0)
    random.setstate(py0)


def setup(tier):
    warm()
    world.start(__name__, world.scratch())  # removed with the check's scratch directory; servers end with the check
