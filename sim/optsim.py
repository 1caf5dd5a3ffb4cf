"""Histories of convex-optimiser objects under solver faults (C01, C02, C03, C04, C12).

generate(rng, prof) makes a scenario; Sim(scn, ctx, oracles).run() executes it against the library with the
oracles of one property switched on.
"""
import copy
import json

import cvxpy as cp
import numpy as np
import pandas as pd

from . import core, desk, seams
from .refmodel import METHODS, PARAMETRISED, Spec
from .util import Market, call, call_in_thread, pick, same, short

OK_STATUS = {"optimal", "optimal_inaccurate"}


# ------------------------------------------------------------------ generation

def gen_bounds(rng, n, shorts):
    """(format, lower list, upper list); None stands for a missing bound."""
    kind = pick(rng, [(4, "pair"), (1, "pair_none"), (3, "list"), (0.7, "list_none"), (2, "arrays"), (0.7, "arrays_nan"), (3, "default")])
    if kind == "default":
        return {"fmt": "default", "lo": [0.0] * n, "hi": [1.0] * n}
    lo0 = rng.choice([-1.0, -0.5, -0.3]) if shorts else rng.choice([0.0, 0.0, 0.02, 0.05])
    hi0 = rng.choice([1.0, 0.9, 0.7, 0.6, 0.5])
    if kind == "pair":
        if rng.random() < 0.2:
            lo0, hi0 = (-1, 1) if shorts else (0, 1)  # ints
        return {"fmt": "pair", "lo": [lo0] * n, "hi": [hi0] * n}
    if kind == "pair_none":
        lo, hi = rng.choice([(None, hi0), (lo0, None), (None, None)])
        return {"fmt": "pair", "lo": [lo] * n, "hi": [hi] * n}
    lo = [round(rng.uniform(-0.6, 0.0), 3) if shorts and rng.random() < 0.7 else round(rng.uniform(0, min(0.8 / n, 0.33)), 3) for _ in range(n)]
    hi = [round(rng.uniform(0.35, 1.0), 3) for _ in range(n)]
    many = rng.random() < 0.12 and shorts, rng.random() < 0.2 and shorts
    if kind.endswith("none") or kind.endswith("nan"):
        i = rng.randrange(n)
        if rng.random() < 0.5:
            hi[i] = None
        else:
            lo[i] = None
        if rng.random() < 0.3:
            hi = [None] * n
        for i in range(n):
            if many[0]:
                lo[i] = None
            elif many[1]:
                lo[i] = None if rng.random() < 0.6 else lo[i]
                hi[i] = None if rng.random() < 0.6 else hi[i]
    return {"fmt": "list" if kind.startswith("list") else "arrays", "lo": lo, "hi": hi}


def bounds_arg(b, rng_order=0):
    """The object passed to the constructor."""
    f, lo, hi = b["fmt"], b["lo"], b["hi"]
    if f == "pair":
        return (lo[0], hi[0])
    if f == "list":
        return [(x, y) for x, y in zip(lo, hi)]
    if f == "arrays":
        nan = lambda v: np.array([np.nan if x is None else x for x in v], float)  # noqa
        return (nan(lo), nan(hi))
    raise AssertionError(f)


def bounds_meaning(b):
    f = b["fmt"]
    inf = np.inf if f == "list" else 1.0
    return (np.array([-inf if x is None else x for x in b["lo"]], float), np.array([inf if x is None else x for x in b["hi"]], float))


def gen_con(rng, n, lo, hi):
    """One user constraint that a portfolio near the centre of the bounds satisfies with slack."""
    i, j = rng.sample(range(n), 2) if n > 1 else (0, 0)
    kind = pick(rng, [(2, "ub"), (2, "lb"), (1, "eq"), (1.5, "diff"), (2, "group"), (1, "vec"), (1, "offset_ub"), (1, "offset_lb"), (0.7, "order"), (0.7, "const_left"), (0.8, "sumsq"), (0.5, "norm1")])
    if n == 1:
        kind = rng.choice(["lb", "norm1"])
    elif n == 2 and kind == "group":
        kind = "diff"
    c = {"k": kind, "i": i, "j": j}
    if kind in ("ub", "offset_ub"):
        c["c"] = round(rng.uniform(0.25, 0.6), 3)
    elif kind in ("lb", "offset_lb", "const_left"):
        c["c"] = round(rng.uniform(0.02, 0.18), 3)
    elif kind == "eq":
        c["c"] = round(rng.uniform(0.1, 0.3), 3)
    elif kind == "diff":
        c["c"] = round(rng.uniform(-0.3, -0.02), 3)
    elif kind == "group":
        c["idx"] = sorted(rng.sample(range(n), rng.randint(2, n - 1)))
        c["sense"] = rng.choice(["<=", ">="])
        c["c"] = round(rng.uniform(0.4, 0.8), 3) if c["sense"] == "<=" else round(rng.uniform(0.1, 0.3), 3)
    elif kind == "vec":
        c["a"] = [[round(rng.uniform(-1, 1), 2) for _ in range(n)] for _ in range(2)]
        c["c"] = round(rng.uniform(0.5, 0.9), 3)
    elif kind == "sumsq":
        c["c"] = round(rng.uniform(0.45, 0.9), 3) if n > 2 else round(rng.uniform(0.55, 0.9), 3)
    elif kind == "norm1":
        c["c"] = round(rng.uniform(1.1, 1.8), 3)
    return c


def con_lambda(c):
    k, i, j = c["k"], c["i"], c["j"]
    v = c.get("c")
    return {
        "ub": lambda w: w[i] <= v, "lb": lambda w: w[i] >= v, "eq": lambda w: w[i] == v,
        "diff": lambda w: w[i] - w[j] >= v, "group": (lambda w: cp.sum(w[c["idx"]]) <= v) if c.get("sense") == "<=" else (lambda w: cp.sum(w[c["idx"]]) >= v),
        "vec": lambda w: np.array(c["a"]) @ w <= v, "offset_ub": lambda w: w[i] - v <= 0, "offset_lb": lambda w: w[i] - v >= 0,
        "order": lambda w: w[i] + 0.5 >= w[j], "const_left": lambda w: v <= w[i],
        "sumsq": lambda w: cp.sum_squares(w) <= v, "norm1": lambda w: cp.norm(w, 1) <= v,
    }[k]


def con_spec(c, spec):
    n, k, i, j, v = spec.n, c["k"], c["i"], c["j"], c.get("c")
    e = np.eye(n)
    if k in ("ub", "offset_ub"):
        spec.lin.append((e[i], "<=", v))
    elif k in ("lb", "offset_lb", "const_left"):
        spec.lin.append((e[i], ">=", v))
    elif k == "eq":
        spec.lin.append((e[i], "==", v))
    elif k == "diff":
        spec.lin.append((e[i] - e[j], ">=", v))
    elif k == "order":
        spec.lin.append((e[i] - e[j], ">=", -0.5))
    elif k == "group":
        a = np.zeros(n)
        a[c["idx"]] = 1
        spec.lin.append((a, c["sense"], v))
    elif k == "vec":
        for row in c["a"]:
            spec.lin.append((np.array(row), "<=", v))
    else:
        spec.nonlin.append((k, v))
    spec.touch()


def gen_obj(rng, n, T):
    k = pick(rng, [(4, "l2"), (2, "tc"), (1, "te_ante"), (0.6, "te_post")])
    if k == "l2":
        return {"kind": k, "gamma": rng.choice([0.01, 0.05, 0.3, 1.0])}
    w = [round(1.0 / n, 3)] * n
    w[rng.randrange(n)] = round(rng.uniform(0, 0.6), 3)
    if k == "tc":
        return {"kind": k, "k": rng.choice([0.001, 0.01, 0.05]), "w_prev": w}
    if k == "te_ante":
        return {"kind": k, "bench": w}
    return {"kind": k, "rseed": rng.randrange(10**6)}


def gen_faults(rng, rate, max_n=2, benign=True):
    fs = []
    if rng.random() < rate:
        kind = pick(rng, [(3, "solver_error"), (3, "user_limit"), (2, "infeasible"), (1, "unbounded"), (1, "infeasible_or_unbounded"), (1, "infeasible_inaccurate"),
                          (0.7, "unbounded_inaccurate"), (0.7, "infeasible_inaccurate_iterate"), (0.7, "unbounded_inaccurate_iterate"), (1.5, "interrupt_before"), (1.5, "interrupt_after"), (1, "memory")] + ([(1, "optimal_inaccurate")] if benign else []))
        fs.append({"site": "solver", "n": 0 if rng.random() < 0.75 else rng.randint(0, max_n), "kind": kind})
    return fs


def gen_solve(rng, cls, method=None, mn_rate=0.15, fault_rate=0.25, infeas=0.12):
    m = method or rng.choice(METHODS[cls])
    op = {"op": "solve", "m": m, "mn": rng.random() < mn_rate and not (cls == "EF" and m in ("min_volatility", "max_sharpe"))}
    if m in ("efficient_return", "efficient_risk"):
        x = rng.random()
        op["f"] = round(rng.uniform(1.1, 2.0), 3) if x < infeas else round(rng.uniform(-0.6, -0.1), 3) if x < infeas * 1.7 else round(rng.uniform(0.05, 0.95), 3)
    elif m == "max_quadratic_utility":
        op["ra"] = rng.choice([0.5, 1, 2.5, 4, 8, 20]) if rng.random() > 0.08 else rng.choice([0, -1.5])
    elif m == "max_sharpe":
        op["rf"] = rng.choice([0.0, 0.0, 0.01, 0.02, 0.03]) if rng.random() > 0.08 else rng.choice([5.0, 9.0])
        if rng.random() < 0.2:
            op["rff"] = round(rng.uniform(0.2, 0.9), 3)  # of the best asset's expected return
    op["faults"] = gen_faults(rng, fault_rate)
    return op


def generate(rng, prof):
    """prof: dict of workload knobs (swarm style: each run also switches features off at random)."""
    n = pick(rng, [(8, rng.randint(3, 5)), (1.5, 2), (0.4, 1), (0.8, rng.randint(6, 9))])
    T = rng.choice([24, 36, 50])
    style = pick(rng, [(4, "str"), (1, "int"), (2, "sorted"), (1, "odd")])
    swarm = {k: rng.random() < p for k, p in {"cons": 0.6, "objs": 0.45, "shorts": 0.4, "sector": 0.3, "copies": prof.get("copies", 0.5), "mn": 0.4}.items()}
    scn = {"cfg": {"data_seed": rng.randrange(10**9), "n": n, "T": T, "style": style}, "ops": []}
    if rng.random() < prof.get("daily", 0.1):
        scn["cfg"]["scale"] = 1 / 252
    bear = rng.random() < 0.15  # most expected returns are negative
    if bear:
        scn["cfg"]["mean"] = -0.0004
    ops = scn["ops"]
    objs = []  # (id, cls, spec-ish)
    nomu = set()
    fault_rate = rng.choice(prof.get("fault_rates", [0, 0.2, 0.4]))
    length = rng.randint(*prof.get("len", (5, 14)))
    nxt = 0

    unlimited = rng.random() < 0.05  # no limits at all: a best Sharpe ratio need not be attained

    def new_obj():
        nonlocal nxt
        cls = "EF" if unlimited else pick(rng, [(4, "EF"), (2, "ESV"), (2, "CVAR"), (1.5, "CDAR")])
        shorts = swarm["shorts"] and rng.random() < 0.7
        op = {"op": "new", "id": nxt, "cls": cls, "bounds": {"fmt": "list", "lo": [None] * n, "hi": [None] * n} if unlimited else gen_bounds(rng, n, shorts), "solver": pick(rng, [(7, "CLARABEL"), (2, "ECOS"), (1 if cls == "EF" else 0.3, None)]),
              "fmt": rng.choice(["pandas", "pandas", "numpy", "list"]), "verbose": rng.random() < 0.04}
        if objs and rng.random() < 0.35:
            op["alt"] = True
        if cls in ("CVAR", "CDAR"):
            op["beta"] = rng.choice([0.95, 0.9, 0.8, 0.5])
        if cls == "ESV":
            op["bench"] = rng.choice([0.0, 0.0, 0.0002])
            op["freq"] = rng.choice([252, 252, 52])
        if cls != "EF" and rng.random() < 0.12:
            op["nanrows"] = rng.randint(1, 3)  # rows with missing values, which are left out
        if rng.random() < 0.07:
            op["nomu"] = True  # expected returns are optional when minimising risk
            nomu.add(nxt)
        ops.append(op)
        objs.append([nxt, cls, None])
        nxt += 1
        if rng.random() < 0.2:
            ops.append({"op": "setw", "obj": objs[-1][0], "seed": rng.randrange(10**6)})
        for _ in range(rng.randint(0, 2) if swarm["cons"] else 0):
            ops.append({"op": "con", "obj": objs[-1][0], "c": gen_con(rng, n, 0, 1)})
        if swarm["sector"] and n > 1 and rng.random() < 0.5:
            ops.append(gen_sector(rng, objs[-1][0], n))
        for _ in range(rng.randint(0, 2) if swarm["objs"] else 0):
            ops.append({"op": "addobj", "obj": objs[-1][0], "o": gen_obj(rng, n, T)})

    def gen_sector(rng, oid, n):
        k = rng.randint(2, min(3, n))
        m = [rng.randrange(k) for _ in range(n)]
        lo, hi = {}, {}
        for s in set(m):
            if rng.random() < 0.4:
                lo[f"s{s}"] = round(rng.uniform(0.02, 0.15), 3)
                if swarm["shorts"] and rng.random() < 0.5:
                    lo[f"s{s}"] = rng.choice([0, 0.0, -0.05, -0.2])
            if rng.random() < 0.4:
                hi[f"s{s}"] = round(rng.uniform(0.5, 0.9), 3)
                if swarm["shorts"] and rng.random() < 0.5 and len(set(m)) > 1:
                    hi[f"s{s}"] = rng.choice([0, 0.05, -0.05, 1, 1, 1.0, 1.1, 1.2])
        if n > 2 and rng.random() < 0.3:  # assets the mapper does not mention
            for i in rng.sample(range(n), rng.randint(1, n - 2)):
                if m.count(m[i]) > 1:
                    m[i] = None
        return {"op": "sector", "obj": oid, "map": m, "lo": lo, "hi": hi}

    for _ in range(rng.randint(1, prof.get("objects", 2))):
        new_obj()
    w = prof.get("weights", {})
    for _ in range(length):
        o = rng.choice(objs)
        kind = pick(rng, [(w.get("solve", 10), "solve"), (w.get("perf", 2), "perf"), (w.get("clean", 1), "clean"), (w.get("setw", 0.6), "setw"),
                          (w.get("con", 0.8), "con"), (w.get("addobj", 0.5), "addobj"), (w.get("sector", 0.3) if n > 1 else 0, "sector"), (w.get("copy", 1) if swarm["copies"] else 0, "copy"),
                          (w.get("nonconvex", 0.4), "nonconvex"), (w.get("convex", 0.3), "convex"), (w.get("bad", 0.7), "bad"), (w.get("drop", 0.15), "drop"), (w.get("new", 0.2), "new")])
        if kind == "solve":
            m = o[2] if o[2] and rng.random() < prof.get("stick", 0.7) else None
            if unlimited and o[2] is None and rng.random() < 0.6:
                m = "max_sharpe"
            if o[0] in nomu and m is None and rng.random() < 0.85:
                m = METHODS[o[1]][0]
            op = gen_solve(rng, o[1], m, 0.3 if swarm["mn"] else 0.0, fault_rate)
            if bear and op["m"] == "max_sharpe" and rng.random() < 0.7:
                op["rf"] = rng.choice([-0.1, -0.2, -0.3])
            if unlimited and m == "max_sharpe" and rng.random() < 0.6:
                op["rff"] = round(rng.uniform(0.3, 0.95), 3)
            if o[2] is None:
                o[2] = op["m"]
                o.append(op["mn"])
            elif op["m"] == o[2] and rng.random() < 0.85:
                op["mn"] = o[3]
            op["obj"] = o[0]
            if rng.random() < prof.get("line", 0.0):
                op["faults"] = [f for f in op["faults"] if f["kind"] == "optimal_inaccurate"]
                op["faults"].append({"site": "line", "n": rng.randint(0, 14), "after": "solver", "kind": "interrupt"} if rng.random() < 0.7 else
                                    {"site": "line", "n": rng.randint(0, 150), "kind": "interrupt"})
            ops.append(op)
        elif kind == "perf":
            ops.append({"op": "perf", "obj": o[0], "rf": rng.choice([0.0, 0.0, 0.02, 0.05]), "verbose": rng.random() < 0.35,
                        "faults": [{"site": "stdout", "n": rng.randint(0, 5), "kind": rng.choice(["epipe", "interrupt"])}] if rng.random() < 0.25 else []})
        elif kind == "clean":
            ops.append({"op": "clean", "obj": o[0], "cutoff": rng.choice([1e-4, 1e-2, 0.1, 0.0]), "rounding": rng.choice([5, 3, 1, None, 0, -2, 2.5])})
        elif kind == "setw":
            ops.append({"op": "setw", "obj": o[0], "seed": rng.randrange(10**6)})
        elif kind == "con":
            ops.append({"op": "con", "obj": o[0], "c": gen_con(rng, n, 0, 1)})
        elif kind == "sector":
            ops.append(gen_sector(rng, o[0], n))
        elif kind == "addobj":
            ops.append({"op": "addobj", "obj": o[0], "o": gen_obj(rng, n, T)})
        elif kind == "copy":
            ops.append({"op": "copy", "obj": o[0], "id": nxt})
            if o[0] in nomu:
                nomu.add(nxt)
            objs.append([nxt] + o[1:])
            nxt += 1
        elif kind == "nonconvex":
            ops.append({"op": "nonconvex", "obj": o[0], "kind": rng.choice(["var", "l2"]), "budget": rng.random() < 0.85, "extra": rng.random() < 0.25,
                        "faults": [{"site": "minimize", "n": 0, "kind": rng.choice(seams.MINIMIZE_KINDS)}] if rng.random() < fault_rate else []})
        elif kind == "convex":
            ops.append({"op": "convex", "obj": o[0], "g": rng.choice([0.0, 0.1, 0.5]), "budget": rng.random() < 0.8, "faults": gen_faults(rng, fault_rate)})
        elif kind == "bad":
            ops.append({"op": "bad", "obj": o[0], "kind": rng.choice(["con_not_callable", "con_raises", "obj_raises", "neg_target", "str_target", "nonconvex_raises", "setw_missing", "undefined_param", "convex_nondcp", "convex_nondcp", "convex_typeerror", "con_nondcp"])})
        elif kind == "drop" and len(objs) > 1:
            ops.append({"op": "drop", "obj": o[0]})
            objs.remove(o)
        elif kind == "new" and len(objs) < 4:
            new_obj()
    return scn


# ------------------------------------------------------------------ execution

class Obj:
    """Model side of one optimiser object."""

    def __init__(self, oid, cls, sut, spec, solver):
        self.id, self.cls, self.sut, self.spec, self.solver = oid, cls, sut, spec, solver
        self.solved = None  # (method, mn) of the first successful convex solve: structure is fixed
        self.attempted = None  # (method, mn) of a solve that reached the solver and failed
        self.rf = None  # risk-free rate of the last successful max_sharpe
        self.source = None  # how the held weights came about: ("solve", method, real_status, slackable) / ("set",)
        self.expected = None  # weights the model says are held
        self.residual = 0.0  # of the solver's answer behind the held weights
        self.mn_amended = False  # a failed market-neutral call may have widened the bounds posed
        self.poisoned = False  # carries a constraint that is not convex
        self.refused = False  # a call for another problem was refused
        self.nomu = False  # built without expected returns
        self.fuzzy = False  # the weights held are those of a solver that stopped short of its tolerance


def snapshot(sut):
    """What the object reports, without faults."""
    with seams.bypass():
        w = getattr(sut, "weights", None)
        s = {"weights": None if w is None else np.array(w, dtype=float, copy=True)}
        for name, fn in (("clean", lambda: dict(sut.clean_weights())), ("perf", lambda: tuple(sut.portfolio_performance()))):
            try:
                s[name] = fn()
            except Exception as e:  # noqa
                s[name] = "raises " + type(e).__name__
    return s


def snap_equal(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.array_equal(x, y, equal_nan=True)):
                return k
        elif isinstance(x, dict) and isinstance(y, dict):
            if list(x) != list(y) or not same(x, y):
                return k
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y) or not all((p is None and q is None) or same(p, q) for p, q in zip(x, y)):
                return k
        elif isinstance(x, str) and isinstance(y, str):
            pass  # both raise
        elif x is None and y is None:
            pass
        else:
            return k
    return None


def observed(r):
    """What a caller sees of one call, as plain data."""
    if not r.ok:
        return ["raises", type(r.exc).__name__]
    v = r.value
    if isinstance(v, dict):
        return ["dict", [str(k) for k in v], [float(x) for x in v.values()]]
    if isinstance(v, tuple):
        return ["tuple", [None if x is None else float(x) for x in v]]
    return ["value", type(v).__name__]


def really_inaccurate(r):
    """The solver itself stopped short of its tolerance (not because a fault said so)."""
    st = [s for site, s in r.trace if site == "solver"]
    return bool(st) and st[-1] == "optimal_inaccurate" and not any(f["kind"] == "optimal_inaccurate" for f in r.fired)


def obs_differ(a, b, tol):
    if "fuzzy" in (a[0], b[0]):  # a solver that stops short of its tolerance stops where it started from
        return False
    if a[0] != b[0]:
        return True
    if a[0] == "dict":
        return a[1] != b[1] or not np.allclose(a[2], b[2], rtol=tol, atol=tol, equal_nan=True)
    if a[0] == "tuple":
        return len(a[1]) != len(b[1]) or any((x is None) != (y is None) or (x is not None and not np.isclose(x, y, rtol=tol, atol=tol, equal_nan=True)) for x, y in zip(a[1], b[1]))
    return a != b


class Sim:
    def __init__(self, scn, ctx, oracles, threaded=False, shared=None):
        self.scn, self.ctx, self.or_ = scn, ctx, set(oracles)
        self.threaded, self.shared = threaded, shared
        self.obs = []  # (index of operation, object, what the caller saw)
        self.last = None
        c = scn["cfg"]
        self.market = Market(c["data_seed"], c["n"], c["T"], c["style"], c.get("mean", 0.0006))
        self.sc = c.get("scale", 1.0)  # inputs per year, or per day
        if self.sc != 1.0:
            self.market.mu, self.market.S = np.round(self.market.mu * self.sc, 10), self.market.S * self.sc
        self.alt = None
        self.objs = {}

    def market_of(self, op):
        """Objects built on other data: same tickers, shapes and first row, other numbers."""
        if not op.get("alt"):
            return self.market
        if self.alt is None:
            c, m = self.scn["cfg"], self.market
            a = Market(c["data_seed"] + 77, c["n"], c["T"], c["style"], c.get("mean", 0.0006))
            a.tickers = list(m.tickers)
            a.R[0] = m.R[0]
            a.returns = pd.DataFrame(a.R, columns=a.tickers, index=a.dates[1:])
            if self.sc != 1.0:
                a.mu, a.S = np.round(a.mu * self.sc, 10), a.S * self.sc
            self.alt = a
        return self.alt

    def on(self, p):
        return p in self.or_

    def do(self, faults, fn, *a, **k):
        """One library call with its faults; remembered as what the caller observed."""
        self.last = (call_in_thread if self.threaded else call)(self.ctx, faults, fn, *a, **k)
        return self.last

    # -------- construction
    def build(self, op):
        from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance

        mk = self.market_of(op)
        fmt = op["fmt"]
        cls = op["cls"]
        mu = mk.mu_series() if fmt == "pandas" else (list(mk.mu) if fmt == "list" else mk.mu.copy())
        labelled = fmt == "pandas" or (cls == "EF" and fmt == "list")
        cov = mk.cov_frame() if labelled else mk.S.copy()
        R = mk.returns.copy() if fmt == "pandas" else mk.R.copy()
        for q in range(op.get("nanrows", 0)):
            at = (q * 7 + 3) % len(R)
            row = np.where(np.arange(mk.n) == q % mk.n, np.nan, 0.5)
            if fmt == "pandas":
                extra = pd.DataFrame([row], columns=R.columns, index=[R.index[at] + pd.Timedelta(hours=1)])
                R = pd.concat([R.iloc[:at], extra, R.iloc[at:]])
            else:
                R = np.insert(R, at, row, axis=0)
        opts = None
        if self.shared is not None:  # objects built from the very same input objects
            key = (fmt, labelled, bool(op.get("alt")), op.get("nanrows", 0))
            mu, cov, R, opts = self.shared.setdefault(key, (mu, cov, R, {"max_iter": 300}))
        names = list(mk.tickers) if labelled else list(range(mk.n))
        if op.get("nomu"):
            mu = None
            if cls != "EF":
                names = list(range(mk.n))
        kw = {"solver": op["solver"], "verbose": op.get("verbose", False)}
        if opts is not None and op["solver"] == "CLARABEL":
            kw["solver_options"] = opts
        if op["bounds"]["fmt"] != "default":
            b = bounds_arg(op["bounds"])
            if self.shared is not None:
                b = self.shared.setdefault(json.dumps(op["bounds"]), b)
            kw["weight_bounds"] = b
        if cls == "EF":
            sut = EfficientFrontier(mu, cov, **kw)
        elif cls == "ESV":
            sut = EfficientSemivariance(mu, R, frequency=op["freq"], benchmark=op["bench"], **kw)
        elif cls == "CVAR":
            sut = EfficientCVaR(mu, R, beta=op["beta"], **kw)
        else:
            sut = EfficientCDaR(mu, R, beta=op["beta"], **kw)
        lo, hi = bounds_meaning(op["bounds"])
        spec = Spec(cls, mk, lo, hi, beta=op.get("beta", 0.95), bench=op.get("bench", 0.0), freq=op.get("freq", 252))
        spec.tickers = names
        return sut, spec

    # -------- main loop
    def run(self):
        for k, op in enumerate(self.scn["ops"]):
            fn = getattr(self, "op_" + op["op"])
            if op["op"] == "new":
                fn(op)
                continue
            o = self.objs.get(op["obj"])
            if o is None:
                continue
            others = None
            if self.on("C04"):
                others = {i: snapshot(x.sut) for i, x in self.objs.items() if i != o.id}
            self.last = None
            fn(o, op)
            if self.last is not None:
                if self.last.ok and [1 for site, _ in self.last.trace if site == "solver"]:
                    o.fuzzy = really_inaccurate(self.last)
                self.obs.append((k, ["fuzzy"] if o.fuzzy and self.last.ok else observed(self.last)))
            if others is not None:
                for i, s in others.items():
                    if i in self.objs:
                        d = snap_equal(s, snapshot(self.objs[i].sut))
                        self.ctx.check(d is None, "cross-talk", lambda: f"op {op['op']} on object {o.id} changed {d} of object {i}")
            if self.on("C12") and o.id in self.objs:
                self.check_reports(o)
            self.ctx.state(op["op"], op.get("m"), bool(o.solved), bool(o.attempted), o.cls)
        return self

    def op_new(self, op):
        sut, spec = self.build(op)
        self.objs[op["id"]] = Obj(op["id"], op["cls"], sut, spec, op["solver"])
        self.objs[op["id"]].market = self.market_of(op)
        self.objs[op["id"]].nomu = bool(op.get("nomu"))
        self.ctx.log("new", op["id"], op["cls"])
        self.ctx.check(list(sut.tickers) == spec.tickers, "tickers", lambda: f"{sut.tickers}")

    def op_copy(self, o, op):
        r = self.do([], o.sut.deepcopy)
        if not r.ok:
            self.ctx.fail("copy-raises", repr(r))
        c = copy.copy(o)
        c.id, c.sut, c.spec = op["id"], r.value, o.spec.clone()
        c.expected = None if o.expected is None else o.expected.copy()
        self.objs[op["id"]] = c
        self.ctx.log("copy", o.id, op["id"])
        if self.on("C04"):
            d = snap_equal(snapshot(o.sut), snapshot(c.sut))
            self.ctx.check(d is None, "copy-differs", lambda: f"copy reports another {d} than the original")
        self.ctx.nontrivial = True

    def op_drop(self, o, op):
        import gc

        del self.objs[o.id]
        o.sut = None
        gc.collect()

    # -------- structure changes
    def structural(self, o, fn, apply, what):
        before = snapshot(o.sut) if self.on("C01") or self.on("C03") else None
        r = self.do([], fn)
        self.ctx.log(what, o.id, r.ok)
        if r.ok:
            if o.solved and self.on("C03"):
                self.ctx.fail("structure-change-accepted", f"{what} accepted after {o.solved[0]} had been solved")
            apply()
        else:
            if not o.solved and not o.attempted:
                if self.on("C03"):
                    self.ctx.fail("structure-change-refused", f"{what} refused before any solve: {r!r}")
                o.attempted = o.attempted or ("?", False)
            if before is not None:
                d = snap_equal(before, snapshot(o.sut))
                self.ctx.check(d is None, "refused-call-changed-state", lambda: f"refused {what} changed {d}")
        self.ctx.nontrivial = True

    def op_con(self, o, op):
        self.structural(o, lambda: o.sut.add_constraint(con_lambda(op["c"])), lambda: con_spec(op["c"], o.spec), "add_constraint")

    def op_sector(self, o, op):
        names = o.spec.tickers
        mapper = {t: f"s{s}" for t, s in zip(names, op["map"]) if s is not None}

        def apply():
            for s, v in op["hi"].items():
                o.spec.lin.append((np.array([1.0 if mapper.get(t) == s else 0.0 for t in names]), "<=", v))
            for s, v in op["lo"].items():
                o.spec.lin.append((np.array([1.0 if mapper.get(t) == s else 0.0 for t in names]), ">=", v))
            o.spec.touch()

        if not op["lo"] and not op["hi"]:
            return
        self.structural(o, lambda: o.sut.add_sector_constraints(mapper, dict(op["lo"]), dict(op["hi"])), apply, "add_sector_constraints")

    def op_addobj(self, o, op):
        from pypfopt import objective_functions as of

        d = dict(op["o"])
        if d["kind"] == "te_post":
            d["rb"] = np.random.default_rng(d["rseed"]).normal(0.0003, 0.01, o.market.T).tolist()
        fn = {"l2": lambda: o.sut.add_objective(of.L2_reg, gamma=d["gamma"]), "tc": lambda: o.sut.add_objective(of.transaction_cost, w_prev=np.array(d["w_prev"]), k=d["k"]),
              "te_ante": lambda: o.sut.add_objective(of.ex_ante_tracking_error, cov_matrix=o.market.S, benchmark_weights=np.array(d["bench"])),
              "te_post": lambda: o.sut.add_objective(of.ex_post_tracking_error, historic_returns=o.market.R, benchmark_returns=np.array(d["rb"]))}[d["kind"]]

        def apply():
            o.spec.objs.append(d)
            o.spec.touch()

        self.structural(o, fn, apply, "add_objective")

    # -------- optimisation calls
    def resolve(self, o, op):
        """Numeric arguments of the call (targets are posed relative to what is attainable) and its classification."""
        m, mn, sp = op["m"], op["mn"], o.spec
        a = {}
        if m == "max_quadratic_utility":
            a["ra"] = op["ra"]
            if op["ra"] <= 0:
                return a, "bad"
        if m == "max_sharpe":
            a["rf"] = round(op["rff"] * float(max(sp.mu)), 9) if "rff" in op else op["rf"]
            if a["rf"] >= max(sp.mu):
                return a, "bad"
        if m in ("efficient_return", "efficient_risk"):
            objs, sp2 = sp.objs, sp.clone()
            sp2.objs = []
            sp2.cache = sp.cache.setdefault(("plain", 0), {}) if objs else sp.cache
            lo = sp2.solve(sp.minrisk_method(), {}, mn)
            hi = sp2.solve("max_return", {}, mn)
            if lo["status"] == "infeasible" or hi["status"] == "infeasible":
                a["target"] = 0.1
                return a, "infeasible"
            if lo["status"] != "optimal" or hi["status"] != "optimal":
                a["target"] = 0.1
                return a, "unknown"
            f = op["f"]
            digits = 6 if self.sc == 1.0 else 9
            if m == "efficient_return":
                r0, r1 = float(sp.mu @ lo["w"]), float(sp.mu @ hi["w"])
                if f <= 1:
                    t = r0 + f * (r1 - r0) if f >= 0 else r0 - abs(f) * 0.2 * abs(r0)
                    if r1 - r0 < 1e-3 * self.sc:
                        a["target"] = float(round(t, digits))
                        return a, "unknown"
                    kind = "feasible"
                else:
                    t = r1 + (f - 1) * max(0.05 * self.sc, abs(r1)) + 0.01 * self.sc
                    kind = "infeasible"
                a["target"] = float(round(t, digits))
                # documented limits of the method
                if o.cls in ("ESV", "CDAR") and a["target"] < 0:
                    kind = "bad" if kind == "feasible" else kind
                if o.cls == "ESV" and a["target"] > np.abs(sp.mu).max():
                    kind = "maybe" if kind == "feasible" else kind
                if o.cls == "EF" and kind == "feasible" and mn:
                    kind = "maybe"
            else:
                v0, v1 = sp.risk(lo["w"]), sp.risk(hi["w"])
                if f < 0:
                    t = v0 * (1 + f)
                    kind = "infeasible" if v0 > 1e-3 else "maybe"
                elif f <= 1:
                    if v1 - v0 < 1e-3 * max(1e-3, v1):
                        a["target"] = float(round(v1 * 1.2 + 1e-3, 8))
                        return a, "maybe"
                    t = v0 + f * (v1 - v0)
                    kind = "feasible"
                else:
                    t = max(v0, v1) * f
                    kind = "feasible"
                a["target"] = float(round(t, 8))
                if a["target"] < 0:
                    kind = "bad"
                elif o.cls == "EF" and kind == "feasible" and a["target"] <= 1.0001 * float(np.sqrt(1 / np.sum(np.linalg.pinv(sp.S)))):
                    kind = "maybe"
            return a, kind
        ref = sp.solve(m, a, mn)
        return a, {"optimal": "feasible", "infeasible": "infeasible", "unbounded": "infeasible"}.get(ref["status"], "unknown")

    def invoke(self, o, op, a):
        m, mn = op["m"], op["mn"]
        s = o.sut
        if m in ("min_volatility",):
            return lambda: s.min_volatility()
        if m == "max_sharpe":
            return lambda: s.max_sharpe(risk_free_rate=a["rf"])
        if m.startswith("min_"):
            return lambda: getattr(s, m)(market_neutral=mn) if mn else getattr(s, m)()
        key = {"max_quadratic_utility": "ra", "efficient_risk": "target", "efficient_return": "target"}[m]
        return lambda: getattr(s, m)(a[key], market_neutral=mn) if mn else getattr(s, m)(a[key])

    def op_solve(self, o, op):
        a, kind = self.resolve(o, op)
        if o.nomu and not op["m"].startswith("min_"):
            kind = "unknown"
            self.ctx.probe("expected returns needed but not given")
        before = snapshot(o.sut) if self.on("C01") or self.on("C03") else None
        mn, m, sp = op["mn"], op["m"], o.spec
        lb0 = (sp.lb.copy(), sp.ub.copy())
        r = self.do(op.get("faults"), self.invoke(o, op, a))
        if any(f["site"] == "line" for f in r.fired):
            return self.after_interrupt(o, m, a, mn, r, before)
        self.after_solve(o, op, m, a, mn, kind, r, before)

    def after_interrupt(self, o, m, a, mn, r, before):
        """Interrupted at an arbitrary source line of the library.  Either the call had no effect on what the object
        holds, or it had its whole effect: the weights held are the old ones or the solution of this call.  What a
        half-posed problem gives later is not promised: the object is dropped."""
        ctx, sp = self.ctx, o.spec
        w = getattr(o.sut, "weights", None)
        ctx.nontrivial = True
        ctx.log("interrupted", o.id, m, r.ok, None if w is None else np.round(w, 5).tolist())
        ctx.check(not r.ok, "interrupt-swallowed", lambda: f"{m} returned {short(r.value)} although it was interrupted")
        old = before["weights"] if before else None
        unchanged = (w is None and old is None) or (w is not None and old is not None and np.array_equal(np.asarray(w, float), old))
        if self.on("C01") and before is not None:
            if unchanged:
                d = snap_equal(before, snapshot(o.sut))
                if not (o.cls in ("CVAR", "CDAR") or m == "max_sharpe") or not [s for site, s in r.trace if site == "solver"]:
                    ctx.check(d is None, "interrupted-call-changed-state", lambda: f"{m} was interrupted but changed {d}")
                ctx.probe("interrupted: no effect")
            else:
                statuses = [s for site, s in r.trace if site == "solver"]
                ctx.check(w is not None and np.shape(w) == (o.spec.n,) and statuses and statuses[-1] in OK_STATUS, "interrupted-call-changed-weights", lambda: f"{m} was interrupted; weights {w}, solver {statuses}")
                o.residual = r.residual
                ctx.probe("interrupted: whole effect")
                self.check_feasible(o, m, a, mn, np.asarray(w, float), statuses, cls="interrupted-call-left-garbage")
        del self.objs[o.id]
        o.sut = None

    def op_convex(self, o, op):
        """convex_objective with a custom objective: variance (or nothing) plus g * sum w^4."""
        if o.cls != "EF":
            return  # the specialised classes do not document custom objectives
        a = {"g": op["g"], "budget": op["budget"]}
        S = o.market.S
        before = snapshot(o.sut) if self.on("C01") or self.on("C03") else None
        ref = o.spec.solve("convex", a, False)
        kind = {"optimal": "feasible", "infeasible": "infeasible", "unbounded": "infeasible"}.get(ref["status"], "unknown")

        def fn():
            return o.sut.convex_objective(lambda w, cov, g: cp.quad_form(w, cov, assume_PSD=True) + g * cp.sum(cp.power(w, 4)), weights_sum_to_one=op["budget"], cov=S, g=op["g"])

        if o.solver is None and op["g"]:
            kind = "unknown" if kind == "feasible" else kind
        r = self.do(op.get("faults"), fn)
        self.after_solve(o, dict(op, m="convex"), "convex", a, False, kind, r, before)

    def after_solve(self, o, op, m, a, mn, kind, r, before):
        ctx, sp = self.ctx, o.spec
        statuses = [s for site, s in r.trace if site == "solver"]
        faulted = any(f["kind"] not in seams.SOLVER_BENIGN for f in r.fired)
        ctx.log("solve", o.id, m, mn, a, kind, r.ok, None if r.ok else type(r.exc).__name__, statuses, None if not r.ok else [round(float(v), 5) for v in r.value.values()] if isinstance(r.value, dict) else "?")
        ctx.nontrivial = True
        if faulted:
            ctx.probe("solve with fault")
        if r.ok:
            ctx.probe("solve returned")
            o.residual = r.residual
            w = self.read_weights(o, r.value)
            if self.on("C01"):
                ctx.check(not o.poisoned, "returned-without-solution", lambda: f"{m} returned weights although the problem is not convex")
                ctx.check(statuses and statuses[-1] in OK_STATUS, "returned-without-solution", lambda: f"{m} returned weights, solver reported {statuses}")
            if w is None:
                return
            # the structure after a market-neutral call on long-only bounds
            if mn and not np.any(sp.lb < 0) and not o.solved:
                if self.on("C02"):
                    self.check_feasible(o, m, a, mn, w, statuses)
                sp.lb, sp.ub = sp.bounds(True)
                sp.touch()
            else:
                if self.on("C02"):
                    self.check_feasible(o, m, a, mn, w, statuses)
            if self.on("C03"):
                if o.solved and (o.solved[0] != m or (o.solved[1] != mn and m not in ("min_volatility", "max_sharpe"))):
                    ctx.fail("structure-change-accepted", f"{m}(market_neutral={mn}) accepted after {o.solved} had been solved")
                if kind in ("infeasible", "bad"):
                    self.check_feasible(o, m, a, mn, w, statuses, cls="infeasible-accepted")
                elif really_inaccurate(r):
                    ctx.count("inaccurate answers, optimality not judged")
                else:
                    self.check_optimal(o, m, a, mn, w, statuses)
            o.solved = o.solved or (m, mn)
            if m == "max_sharpe":
                o.rf = a["rf"]
            o.expected = w.copy()
            o.source = ("solve", m, statuses[-1] if statuses else None, a)
            o.residual = r.residual
        else:
            ctx.probe("solve raised")
            if statuses:
                if not o.attempted:
                    o.attempted = (m, mn)
                elif o.attempted != (m, mn):
                    o.attempted = ("?", mn)
            if not statuses and not o.solved and not isinstance(r.exc, (ValueError, TypeError)) and not o.attempted:
                o.attempted = ("?", mn)
            if mn and not np.any(sp.lb < 0) and not o.solved and statuses:
                # the amended bounds may already be part of the problem posed
                o.mn_amended = True
            if before is not None:
                d = snap_equal(before, snapshot(o.sut))
                ctx.check(d is None, "failed-call-changed-state", lambda: f"{m} raised {type(r.exc).__name__} but changed {d}: before {short(before[d])} after {short(snapshot(o.sut)[d])}")
            if (o.solved and o.solved != (m, mn)) or (o.attempted and not o.solved and o.attempted != (m, mn)):
                o.refused = True  # the refused problem has replaced the objective: the library asks for a new object
            if self.on("C03") and not r.fired and kind == "feasible" and not o.refused:
                fresh = not o.solved and not o.attempted
                same_problem = m in PARAMETRISED and ((o.solved == (m, mn)) or (not o.solved and o.attempted == (m, mn)))
                if fresh or same_problem:
                    real_fail = statuses and statuses[-1] in ("user_limit",) or isinstance(r.exc, cp.error.SolverError) or type(r.exc).__name__ == "PanicException"
                    if not real_fail and o.solver == "CLARABEL":
                        ctx.fail("feasible-call-refused", f"{m}({a}, market_neutral={mn}) on {'a fresh' if fresh else 'the same'} problem: {r!r}; solver {statuses}")

    def read_weights(self, o, value):
        """The returned mapping; checks agreement of dictionary, attribute and ticker order."""
        ctx = self.ctx
        good = isinstance(value, dict) and list(value) == o.spec.tickers
        w = np.array([float(v) for v in value.values()]) if isinstance(value, dict) else None
        attr = getattr(o.sut, "weights", None)
        if self.on("C02"):
            ctx.check(good, "ticker-order", lambda: f"returned {short(value)} for tickers {o.spec.tickers}")
            ctx.check(attr is not None and np.shape(attr) == (o.spec.n,) and np.array_equal(np.asarray(attr, float), w), "weights-disagree", lambda: f"attribute {attr} returned {short(value)}")
        if not good or attr is None or not np.all(np.isfinite(w)):
            if self.on("C02") and w is not None:
                ctx.check(np.all(np.isfinite(w)), "non-finite", lambda: short(value))
            return None
        return w

    def tol(self, o, statuses):
        base = 3e-3 if o.solver is None else 2e-5 if o.solver == "CLARABEL" else 2e-4
        return max(base, 20 * o.residual)

    def solver_lied(self, o):
        """The solver declared optimal a point that breaks the problem it was handed: nothing to judge."""
        if o.residual > 1e-3:
            self.ctx.count("solver answer rejected by residual")
            return True
        return False

    def check_feasible(self, o, m, a, mn, w, statuses, cls="infeasible-portfolio"):
        if self.solver_lied(o):
            return
        tol = self.tol(o, statuses)
        for name, d in o.spec.infeasibility(m, a, w, mn):
            t = tol * min(max(1.0, float(np.abs(w).max())), 100.0)
            if name == "target risk":
                # posed on squares (or on a scaled sum): a residual of the solver's size there
                t = max(tol, max({"CLARABEL": 4e-7, "ECOS": 4e-6, None: 4e-5}[o.solver], 4 * o.residual) / max(a["target"], 1e-6))
            self.ctx.check(d <= t, cls, lambda: f"{m}({a}, market_neutral={mn}) on {o.cls} returned {np.round(w, 5).tolist()}: {name} broken by {d:.2e}")
        self.ctx.count("feasibility checks")

    def check_optimal(self, o, m, a, mn, w, statuses):
        sp = o.spec
        if m == "max_sharpe" and (sp.objs or sp.nonlin):
            return
        if self.solver_lied(o):
            return
        ref = sp.solve(m, a, mn)
        if ref["status"] != "optimal":
            return
        if o.solver is None:
            rel, ab = 2e-2, 2e-3
        elif o.solver == "CLARABEL":
            rel, ab = 1e-3, 2e-6
        else:
            rel, ab = 5e-3, 2e-5
        v = sp.value(m, a, w)
        d = v - ref["value"]
        self.ctx.count("optimality checks")
        self.ctx.check(d <= rel * abs(ref["value"]) + ab, "not-the-optimum",
                       lambda: f"{m}({a}, market_neutral={mn}) on {o.cls} ({o.solver}): objective {v:.8g}, optimum {ref['value']:.8g}; returned {np.round(w, 5).tolist()}, optimal {np.round(ref['w'], 5).tolist()}")
        worst = max(sp.infeasibility(m, a, w, mn), key=lambda t: t[1])
        if worst[1] > 10 * self.tol(o, statuses) and worst[0] != "target risk":
            self.ctx.fail("not-the-optimum", f"{m}: {worst[0]} broken by {worst[1]:.2e}")
        self.check_feasible(o, m, a, mn, w, statuses)

    # -------- other operations
    def op_setw(self, o, op):
        r0 = np.random.default_rng(op["seed"])
        v = np.round(r0.dirichlet(np.ones(o.spec.n)), 4)
        v[-1] = round(1 - v[:-1].sum(), 4)
        d = dict(zip(o.spec.tickers, v.tolist()))
        items = list(d.items())
        r0.shuffle(items)
        before = snapshot(o.sut)
        r = self.do([], o.sut.set_weights, dict(items))
        self.ctx.log("setw", o.id, r.ok)
        if r.ok:
            o.expected = v.copy()
            o.source = ("set",)
        else:
            dd = snap_equal(before, snapshot(o.sut))
            if self.on("C12") or self.on("C01"):
                self.ctx.check(dd is None, "failed-call-changed-state", lambda: f"set_weights raised and changed {dd}")
            if self.on("C12") and o.cls in ("EF", "ESV"):
                self.ctx.fail("set-weights-refused", repr(r))

    def op_perf(self, o, op):
        kw = {"verbose": op["verbose"]}
        if o.cls in ("EF", "ESV"):
            kw["risk_free_rate"] = op["rf"]
        before = snapshot(o.sut) if self.or_ & {"C12", "C01", "C03"} else None
        r = self.do(op.get("faults"), lambda: o.sut.portfolio_performance(**kw))
        self.ctx.log("perf", o.id, r.ok, r.value if r.ok else type(r.exc).__name__)
        if self.on("C12"):
            self.ctx.nontrivial = True
            if r.ok:
                self.check_perf(o, r.value, op["rf"])
                if not op["verbose"]:
                    self.ctx.check(r.out == "", "printed-unasked", lambda: r.out)
                elif (r.value[1] is not None) and not r.fired:
                    desk.check_print(self.ctx, r.out, r.value, o.cls, (0.1, 0.1 if o.cls in ("EF", "ESV") else 0.01, 0.01))
            elif o.expected is not None and not r.fired:
                if o.cls in ("CVAR", "CDAR") and o.source and o.source[0] == "nonconvex":
                    self.ctx.known("K2", "performance-raises", repr(r))
                else:
                    self.ctx.fail("performance-raises", repr(r))
        if before is not None and (self.on("C12")):
            d = snap_equal(before, snapshot(o.sut))
            self.ctx.check(d is None, "query-changed-state", lambda: f"portfolio_performance (fired {r.fired}) changed {d}")

    def check_reports(self, o):
        """C12 after every operation: reports derive from the weights held."""
        s = o.sut
        with seams.bypass():
            w = getattr(s, "weights", None)
            if o.expected is None:
                if w is None:
                    try:
                        p = s.portfolio_performance()
                    except Exception:  # noqa
                        p = None
                    self.ctx.check(p is None, "performance-without-weights", lambda: f"{p}")
                return
            self.ctx.check(w is not None and np.array_equal(np.asarray(w, float), o.expected), "weights-changed", lambda: f"held {w}, last successful call gave {o.expected.tolist()}")
            try:
                p = s.portfolio_performance()
            except Exception as e:  # noqa
                if "CVaR" in type(s).__name__ or "CDaR" in type(s).__name__:
                    if o.source and o.source[0] == "nonconvex":
                        self.ctx.known("K2", "performance-raises", f"{type(e).__name__}: {e}")
                        return
                self.ctx.fail("performance-raises", f"{type(e).__name__}: {e}")
        self.check_perf(o, p, 0.0)

    def check_perf(self, o, p, rf):
        sp, w = o.spec, o.expected
        ctx = self.ctx
        if w is None:
            ctx.fail("performance-without-weights", f"{p}")
        ret, risk = float(sp.mu @ w), sp.reported_risk(w)
        ctx.count("performance checks")
        if o.nomu:
            ctx.check(p[0] is None, "reported-return", lambda: f"reported {p[0]} although no expected returns were given")
        else:
            ctx.check(p[0] is not None and abs(float(p[0]) - ret) <= 1e-8 + 1e-6 * abs(ret), "reported-return", lambda: f"reported {p[0]}, weights give {ret}")
        if o.cls in ("EF", "ESV"):
            ctx.check(abs(float(p[1]) - risk) <= 1e-8 + 1e-6 * risk, "reported-risk", lambda: f"reported {p[1]}, weights give {risk}")
            rate = o.rf if (o.cls == "EF" and o.rf is not None) else rf
            if o.nomu:
                ctx.check(p[2] is None, "reported-ratio", lambda: f"reported {p[2]} although no expected returns were given")
            elif risk > 1e-6:
                ratio = (ret - rate) / risk
                ctx.check(abs(float(p[2]) - ratio) <= 1e-6 * max(1, abs(ratio)), "reported-ratio", lambda: f"reported {p[2]}, weights give {ratio} at rate {rate}")
            return
        src = o.source
        rep = p[1]
        if src and src[0] == "nonconvex":
            if rep is None or abs(float(rep) - risk) > 1e-6 + 1e-3 * abs(risk):
                ctx.known("K2", "reported-risk", f"{o.cls} after nonconvex_objective reports {rep}, weights give {risk}")
            return
        tol = 2e-5 + 1e-3 * abs(risk)
        if o.solver != "CLARABEL" or (src and src[2] != "optimal"):
            tol = 2e-4 + 1e-2 * abs(risk)
        if o.solver is None:
            tol = 2e-3 + 5e-2 * abs(risk)
        if o.residual > 1e-3:
            ctx.count("solver answer rejected by residual")
            return
        tol = max(tol, 50 * o.residual)
        ctx.check(rep is not None, "reported-risk", "None")
        d = float(rep) - risk
        if abs(d) <= tol:
            return
        # K1: efficient_risk whose risk constraint does not bind reports the solver's auxiliary value
        if src and src[0] == "solve" and src[1] == "efficient_risk" and d > 0 and float(rep) <= src[3]["target"] + tol:
            ctx.known("K1", "reported-risk", f"{o.cls}.efficient_risk({src[3]['target']}) reports {float(rep):.6g}, the weights give {risk:.6g}")
            return
        ctx.fail("reported-risk", f"{o.cls} after {src} reports {rep}, weights give {risk}")

    def op_clean(self, o, op):
        before = snapshot(o.sut) if self.on("C12") else None
        r = self.do([], lambda: o.sut.clean_weights(cutoff=op["cutoff"], rounding=op["rounding"]))
        self.ctx.log("clean", o.id, r.ok, r.value if r.ok else type(r.exc).__name__)
        if not self.on("C12"):
            return
        rd = op["rounding"]
        if o.expected is None:
            self.ctx.check(not r.ok or getattr(o.sut, "weights", None) is not None, "clean-without-weights", repr(r.value))
        elif rd is not None and (not isinstance(rd, int) or rd < 1):
            self.ctx.check(not r.ok, "clean-bad-rounding", lambda: f"rounding={rd} accepted")
        else:
            self.ctx.check(r.ok, "clean-raises", lambda: repr(r))
            w = o.expected.copy()
            w[np.abs(w) < op["cutoff"]] = 0
            if rd is not None:
                w = np.round(w, rd)
            self.ctx.check(isinstance(r.value, dict) and list(r.value) == o.spec.tickers, "clean-tickers", lambda: short(r.value))
            self.ctx.check(np.allclose(list(r.value.values()), w, atol=1e-12, rtol=0), "clean-values", lambda: f"{list(r.value.values())} expected {w.tolist()}")
        d = snap_equal(before, snapshot(o.sut))
        self.ctx.check(d is None, "query-changed-state", lambda: f"clean_weights changed {d}")

    def op_nonconvex(self, o, op):
        if o.mn_amended or (o.attempted and o.attempted[0] == "?"):
            return
        S = o.market.S
        n = o.spec.n
        lo, hi = o.spec.lb, o.spec.ub
        feasible = not op["budget"] or lo.sum() < 0.98 and hi.sum() > 1.02
        if not feasible and not (lo.sum() > 1.02 or hi.sum() < 0.98):
            return  # too close to tell
        if op["kind"] == "var":
            fn = lambda w, cov: float(w @ cov @ w) * 10  # noqa
            args = (S,)
        else:
            fn = lambda w, g: float(np.sum((w - 0.2) ** 2) * g)  # noqa
            args = (2.0,)
        kw = {}
        extra = op.get("extra") and feasible and op["budget"] and np.all(np.isfinite(lo)) and np.all(np.isfinite(hi))
        if extra:  # a constraint of the caller's own, half way to the limit
            i, c = int(np.argmax(hi - lo)), None
            c = float(lo[i] + 0.5 * (min(hi[i], lo[i] + max(1 - lo.sum(), 0)) - lo[i]))
            kw["constraints"] = [{"type": "ineq", "fun": lambda w: c - w[i]}]
            feasible = feasible and (hi.sum() - hi[i] + c) > 1.02
            if not feasible:
                return
        before = snapshot(o.sut)
        r = self.do(op.get("faults", ()), lambda: o.sut.nonconvex_objective(fn, objective_args=args, weights_sum_to_one=op["budget"], **kw))
        self.ctx.log("nonconvex", o.id, r.ok)
        self.ctx.probe("nonconvex returned" if r.ok else "nonconvex raised")
        if not r.ok:
            after = [f for f in r.fired if f["kind"] == "interrupt_after"]
            if feasible and not r.fired:
                self.ctx.check(not (self.on("C01") or self.on("C02")), "nonconvex-raises", lambda: repr(r))
            if self.on("C01") and not after:
                d = snap_equal(before, snapshot(o.sut))
                self.ctx.check(d is None, "failed-call-changed-state", lambda: f"nonconvex_objective {r!r} changed {d}")
            return
        statuses = [s for site, s in r.trace if site == "minimize"]
        if self.on("C01"):
            self.ctx.check(not r.fired and (not statuses or statuses[-1] == "optimal"), "returned-without-solution", lambda: f"nonconvex_objective returned weights, scipy reported {statuses} ({r.fired})")
        w = self.read_weights(o, r.value)
        if w is None:
            return
        o.expected = w.copy()
        o.source = ("nonconvex",)
        if self.on("C02"):
            self.ctx.check(np.all(w >= lo - 1e-6) and np.all(w <= hi + 1e-6), "infeasible-portfolio", lambda: f"nonconvex_objective: {w.tolist()} outside {lo.tolist()} .. {hi.tolist()}")
            if op["budget"]:
                self.ctx.check(abs(w.sum() - 1) < 1e-5, "infeasible-portfolio", lambda: f"nonconvex_objective: weights sum to {w.sum()}")
            if extra:
                self.ctx.check(w[i] <= c + 1e-5, "infeasible-portfolio", lambda: f"nonconvex_objective: weight {i} is {w[i]}, constrained to {c}")
            self.ctx.count("feasibility checks")

    def op_bad(self, o, op):
        """Calls that must be refused and must not disturb anything."""
        k, s = op["kind"], o.sut

        def boom(*a, **kw):
            raise RuntimeError("user callback failed")

        def boom_type():
            raise TypeError("user callback failed")

        fn = {
            "con_not_callable": lambda: s.add_constraint(0.5),
            "con_raises": lambda: s.add_constraint(boom),
            "obj_raises": lambda: s.add_objective(boom),
            "neg_target": lambda: s.efficient_risk(-0.2) if o.cls != "CVAR" else s.efficient_risk("x"),
            "str_target": lambda: s.efficient_return("high") if o.cls in ("EF", "ESV") else s.min_volatility(),
            "nonconvex_raises": lambda: s.nonconvex_objective(boom, objective_args=(1,)),
            "setw_missing": lambda: s.set_weights({"nope": 1.0}),
            "undefined_param": lambda: s.update_parameter_value("no_such_parameter", 1.0),
            "convex_nondcp": lambda: s.convex_objective(lambda w: -cp.sum_squares(w), weights_sum_to_one=False),
            "convex_typeerror": lambda: s.convex_objective(lambda w: boom_type(), weights_sum_to_one=False),
            "con_nondcp": lambda: s.add_constraint(lambda w: cp.sum_squares(w) >= 0.5),
        }[k]
        if k == "neg_target" and o.cls == "ESV":
            return  # squares its target: not refused by the library
        before = snapshot(s)
        r = self.do([], fn)
        self.ctx.log("bad", o.id, k, r.ok)
        if k == "con_nondcp":  # may be refused at once or when solving; no convex solve can return from now on
            if r.ok and self.on("C03") and o.solved:
                self.ctx.fail("structure-change-accepted", f"add_constraint accepted after {o.solved[0]} had been solved")
            o.poisoned = o.poisoned or r.ok
            o.refused = True
        if r.ok and k != "con_nondcp":
            if self.on("C01") and k == "convex_nondcp":
                self.ctx.fail("returned-without-solution", "a non-convex problem was accepted")
            w = getattr(s, "weights", None)
            o.expected = None if w is None else np.array(w, float)
            o.source = ("nonconvex",)
            return
        if k in ("convex_nondcp", "neg_target", "str_target"):
            o.refused = True
        if k in ("convex_nondcp", "neg_target", "str_target") and not o.solved and not o.attempted:
            st = [x for x in r.trace if x[0] == "solver"]
            if st or k == "convex_nondcp":
                o.attempted = ("?", False)
        d = snap_equal(before, snapshot(s))
        if self.or_ & {"C01", "C03", "C12"}:
            self.ctx.check(d is None, "failed-call-changed-state", lambda: f"refused call {k} changed {d}")
