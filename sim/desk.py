"""Histories over the optimisers that do not use a convex solver (HRP, CLA, Black-Litterman) and the
stand-alone portfolio_performance function, for C12: every report is recomputed in numpy from the weights held."""
import re

import numpy as np
import pandas as pd

from . import seams
from .util import Market, call, pick, short

RULE = "a quarter of the histories use HRPOpt, CLA, BlackLittermanModel and the stand-alone portfolio_performance, with failures of the clustering, of linear algebra and of printing"
METHODS = ["single", "complete", "average", "ward", None]


def generate(rng):
    n = pick(rng, [(5, rng.randint(2, 5)), (1, rng.randint(6, 12))])
    objs = [{"cls": pick(rng, [(3, "HRP"), (2, "CLA"), (3, "BL"), (2, "fn")]), "input": rng.choice(["returns", "returns", "cov", "both"]), "fmt": rng.choice(["pandas", "numpy"]), "views": rng.randint(1, n)}
            for _ in range(rng.randint(1, 3))]
    rate = rng.choice([0, 0.3, 0.6])
    ops = []
    for _ in range(rng.randint(5, 14)):
        k = pick(rng, [(4, "optimize"), (5, "perf"), (2, "setw"), (2, "clean"), (1, "query")])
        op = {"op": k, "obj": rng.randrange(len(objs)), "faults": [], "x": rng.randrange(10**6)}
        if k == "perf":
            op.update(rf=rng.choice([0.0, 0.02, 0.05, -0.01]), freq=rng.choice([None, None, 252, 12, 52]), verbose=rng.random() < 0.5)
            if op["verbose"] and rng.random() < rate:
                op["faults"].append({"site": "stdout", "n": rng.randint(0, 5), "kind": rng.choice(["epipe", "interrupt"])})
            elif rng.random() < rate:
                op["faults"].append(rng.choice([{"site": "line", "n": rng.randint(0, 25), "kind": "interrupt"}, {"site": "linalg.solve", "n": 0, "kind": rng.choice(["memory", "noconv"])}]))
        elif k == "optimize":
            op["method"] = rng.choice(METHODS)
            if rng.random() < rate:
                op["faults"].append(rng.choice([{"site": "linalg.inv", "n": rng.randint(0, 9), "kind": "singular"}, {"site": "linalg.multi_dot", "n": rng.randint(0, 4), "kind": "memory"},
                                                {"site": "cluster.linkage", "n": 0, "kind": "value"}, {"site": "linalg.solve", "n": rng.randint(0, 1), "kind": "memory"},
                                                {"site": "line", "n": int(10 ** rng.uniform(0, 2.5)), "kind": "interrupt"}]))
        elif k == "clean":
            op.update(cutoff=rng.choice([1e-4, 1e-2, 0.1, 0.0]), rounding=rng.choice([5, 3, 1, None, 0, -2]))
        ops.append(op)
    return {"desk": True, "n": n, "T": rng.choice([30, 60]), "seed": rng.randrange(10**9), "style": pick(rng, [(4, "str"), (1, "odd"), (1, "int"), (1, "sorted")]), "objs": objs, "ops": ops}


class Held:
    """One optimiser and what it must report."""

    def __init__(self, c, m, k):
        import pypfopt

        self.c, self.m, self.cls = c, m, c["cls"]
        self.w = None  # weights held
        names, S, mu = list(m.tickers), m.S, m.mu
        self.names = names
        frame, series = m.cov_frame(), m.mu_series()
        if self.cls == "HRP":
            self.o = pypfopt.HRPOpt(returns=None if c["input"] == "cov" else m.returns, cov_matrix=frame if c["input"] != "returns" else None)
        elif self.cls == "CLA":
            self.o = pypfopt.CLA(series, frame) if c["fmt"] == "pandas" else pypfopt.CLA(mu, S)
            if c["fmt"] != "pandas":
                self.names = list(range(m.n))
        elif self.cls == "BL":
            r = np.random.default_rng(m.n * 7 + k)
            ix = r.choice(m.n, min(c["views"], m.n), replace=False)
            q = np.round(r.normal(0.1, 0.1, len(ix)), 3)
            pi = np.round(mu * 0.5, 4)
            self.o = pypfopt.BlackLittermanModel(frame if c["fmt"] == "pandas" else S, pi=pd.Series(pi, index=names) if c["fmt"] == "pandas" else pi,
                                                 absolute_views={(names if c["fmt"] == "pandas" else list(range(m.n)))[i]: float(x) for i, x in zip(ix, q)})
            if c["fmt"] != "pandas":
                self.names = list(range(m.n))
            P = np.zeros((len(ix), m.n))
            P[np.arange(len(ix)), ix] = 1
            C = 0.05 * S @ P.T
            B = np.linalg.inv(P @ C + np.diag(np.diag(P @ C)))
            self.mu, self.S = pi + C @ B @ (q - P @ pi), S + 0.05 * S - C @ B @ C.T
        else:
            self.o = None

    def inputs(self, freq):
        if self.cls == "BL":
            return self.mu, self.S
        if self.cls == "HRP":
            if self.c["input"] == "cov":
                return None, self.m.S
            f = freq or 252
            return self.m.R.mean(axis=0) * f, np.cov(self.m.R.T, ddof=1).reshape(self.m.n, self.m.n) * f
        return self.m.mu, self.m.S

    def want(self, rf, freq):
        mu, S = self.inputs(freq)
        sd = float(np.sqrt(self.w @ S @ self.w))
        if mu is None:
            return (None, sd, None)
        return (float(mu @ self.w), sd, (float(mu @ self.w) - rf) / sd)


def agree(got, want):
    return len(got) == len(want) and all((a is None) == (b is None) and (a is None or abs(float(a) - b) <= 1e-8 + 1e-6 * abs(b)) for a, b in zip(got, want))


def check_print(ctx, out, value, where, places=(0.1, 0.1, 0.01)):
    """The figures printed are those returned (percentages for return and risk)."""
    shown = [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|(?<![A-Za-z-])-?(?:inf|nan)(?![A-Za-z])", out)]
    want = [float(v) * s for v, s in zip(value, (100, 100, 1)) if v is not None]
    step = [p for v, p in zip(value, places) if v is not None]
    ctx.check(len(shown) == len(want) and all(abs(a - b) <= 0.5001 * max(p, 1e-9 * abs(b)) + 1e-9 if np.isfinite(b) else a == b or (a != a and b != b) for a, b, p in zip(shown, want, step)), "printed-figures",
              lambda: f"{where} printed {out!r} but returned {tuple(value)}")
    ctx.count("printed reports compared")


def execute(scn, ctx):
    seams.LIMIT = 10**9
    m = Market(scn["seed"], scn["n"], scn["T"], scn["style"])
    with seams.bypass():
        held = [Held(c, m, k) for k, c in enumerate(scn["objs"])]
    for k, op in enumerate(scn["ops"]):
        h = held[op["obj"]]
        ctx.nontrivial = True
        if h.cls == "fn":
            r = standalone(h, op, ctx)
        else:
            r = step(h, op, ctx)
        if r is not None:
            ctx.log(k, op["op"], h.cls, r.ok, r.value if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
            ctx.state(h.cls, op["op"], r.ok, tuple(f["kind"] for f in r.fired), h.w is None, op.get("freq"), h.c["input"])
        for x in held:  # after every operation, everything reports the weights it holds
            report(x, ctx)


def step(h, op, ctx):
    o, k = h.o, op["op"]
    if k == "optimize":
        m = {"HRP": lambda: o.optimize() if op["method"] is None else o.optimize(linkage_method=op["method"]),
             "CLA": lambda: o.max_sharpe() if op["x"] % 2 else o.min_volatility(),
             "BL": lambda: o.bl_weights() if op["x"] % 2 else o.optimize(2.0)}[h.cls]
        r = call(ctx, op["faults"], m)
        now = getattr(o, "weights", None)
        if r.ok:
            h.w = np.array([float(dict((repr(a), b) for a, b in r.value.items())[repr(t)]) for t in h.names])
        elif any(f["site"] == "line" for f in r.fired):  # may land just after the weights were stored
            if now is not None and (h.w is None or not np.array_equal(np.asarray(now, float).ravel(), h.w)):
                h.w = np.asarray(now, float).ravel()
        return r
    if k == "setw":
        v = np.round(np.random.default_rng(op["x"]).dirichlet(np.ones(len(h.names))) * 1.3 - 0.3 / len(h.names), 4)
        items = list(zip(h.names, v.tolist()))
        if op["x"] % 3:
            items = items[::-1]
        r = call(ctx, (), o.set_weights, dict(items))
        if h.cls == "CLA":
            ctx.check(not r.ok, "set-weights", "CLA accepted set_weights")
        else:
            ctx.check(r.ok, "set-weights", lambda: repr(r))
            h.w = v
        return r
    if k == "clean":
        r = call(ctx, (), o.clean_weights, cutoff=op["cutoff"], rounding=op["rounding"])
        rd = op["rounding"]
        if h.w is None:
            ctx.check(not r.ok, "clean-without-weights", lambda: short(r.value))
        elif rd is not None and rd < 1:
            ctx.check(not r.ok, "clean-bad-rounding", lambda: f"rounding={rd} accepted")
        else:
            w = h.w.copy()
            w[np.abs(w) < op["cutoff"]] = 0
            if rd is not None:
                w = np.round(w, rd)
            ctx.check(r.ok and list(r.value) == h.names and np.allclose(list(r.value.values()), w, atol=1e-12, rtol=0), "clean-values", lambda: f"{r!r}: {short(r.value)} expected {w.tolist()}")
        return r
    if k == "query":
        if h.cls == "BL":
            return call(ctx, (), o.bl_returns if op["x"] % 2 else o.bl_cov)
        if h.cls == "CLA":
            return call(ctx, (), o.efficient_frontier, points=30)
        return call(ctx, (), o.optimize, linkage_method="nope")
    kw = {"verbose": op["verbose"], "risk_free_rate": op["rf"]}
    if h.cls == "HRP" and op["freq"]:
        kw["frequency"] = op["freq"]
    r = call(ctx, op["faults"], o.portfolio_performance, **kw)
    if r.ok:
        ctx.check(h.w is not None, "performance-without-weights", lambda: f"{r.value}")
        ctx.check(not r.fired, "failure-ignored", lambda: f"{r.value} although {r.fired}")
        want = h.want(op["rf"], op["freq"])
        ctx.check(agree(r.value, want), "reported", lambda: f"{h.cls} ({h.c['input']}) portfolio_performance({kw}) reports {tuple(r.value)}, the weights held give {want}")
        if op["verbose"]:
            check_print(ctx, r.out, r.value, h.cls)
        else:
            ctx.check(r.out == "", "printed-unasked", lambda: r.out)
        ctx.count("performance checks")
    else:
        ctx.check(h.w is None or r.fired, "performance-raises", lambda: repr(r))
    return r


def report(h, ctx):
    if h.cls == "fn":
        return
    with seams.bypass():
        w = getattr(h.o, "weights", None)
        if h.w is None:
            try:
                p = h.o.portfolio_performance()
            except Exception:  # noqa
                p = None
            ctx.check(p is None, "performance-without-weights", lambda: f"{h.cls}: {p}")
            return
        ctx.check(w is not None and np.allclose(np.asarray(w, float).ravel(), h.w, atol=1e-15, rtol=0), "weights-changed", lambda: f"{h.cls} holds {w}, last successful call gave {h.w.tolist()}")
        try:
            p = h.o.portfolio_performance()
        except Exception as e:  # noqa
            ctx.fail("performance-raises", f"{h.cls}: {type(e).__name__}: {e}")
    want = h.want(0.0, None)
    ctx.check(agree(p, want), "reported", lambda: f"{h.cls} ({h.c['input']}) reports {tuple(p)}, the weights held give {want}")


def standalone(h, op, ctx):
    """The module-level function, on weights in every accepted form."""
    from pypfopt.base_optimizer import portfolio_performance

    if op["op"] != "perf":
        return None
    m, x = h.m, op["x"]
    r0 = np.random.default_rng(x)
    w = np.round(r0.dirichlet(np.ones(m.n)), 4)
    names = list(m.tickers)
    mu, S = m.mu_series(), m.cov_frame()
    kind = x % 5
    if kind == 0:
        arg = w
    elif kind == 1:
        arg = w.tolist()
    elif kind == 2:  # any order, zeros left out
        w[r0.integers(m.n)] = 0
        arg = {names[i]: float(w[i]) for i in r0.permutation(m.n) if w[i]}
    elif kind == 3:
        arg, mu = {t: float(v) for t, v in zip(names, w)}, None
    else:
        arg, mu, S = w, m.mu, m.S
    if kind in (2, 3) and not w.any():
        return None
    r = call(ctx, op["faults"], portfolio_performance, arg, mu, S, op["verbose"], op["rf"])
    if r.ok:
        h.w = w
        sd = float(np.sqrt(w @ m.S @ w))
        want = (None, sd, None) if mu is None else (float(m.mu @ w), sd, (float(m.mu @ w) - op["rf"]) / sd)
        ctx.check(agree(r.value, want), "reported", lambda: f"portfolio_performance of {short(arg)} reports {tuple(r.value)} instead of {want}")
        if op["verbose"]:
            check_print(ctx, r.out, r.value, "portfolio_performance")
        ctx.count("performance checks")
    else:
        ctx.check(r.fired, "performance-raises", lambda: repr(r))
    return r


def shrink(scn):
    if scn["n"] > 2:
        yield dict(scn, n=scn["n"] - 1)
    for k, c in enumerate(scn["objs"]):
        for a, v in (("input", "returns"), ("fmt", "pandas"), ("views", 1)):
            if c[a] != v:
                yield dict(scn, objs=scn["objs"][:k] + [dict(c, **{a: v})] + scn["objs"][k + 1:])
    if scn["style"] != "int":
        yield dict(scn, style="int")
