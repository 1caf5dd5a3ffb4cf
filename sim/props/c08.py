"""C08: critical-line results do not depend on call order or past failures."""
import numpy as np
import pandas as pd

from .. import core, refmodel, seams
from ..util import Market, call, pick, same, short

ID = "C08"
RULE = ("seeded histories of 3-12 max_sharpe, min_volatility, efficient_frontier and performance calls on one or two CLA objects sharing data (default, box, per-asset and short bounds, ties, "
        "infeasible bounds), with failures and interruptions injected at the n-th matrix inversion or the n-th library line of a call; each result compared with a new object in a pristine process "
        "and, when well conditioned, with independently solved optima; step-bounded; distinct = event-log digest")
RUNS = {"quick": 2200, "thorough": 120000}
BATCH = 24
ZYGOTE = True
COMPONENTS = {"real": ["pypfopt.cla", "numpy linear algebra"], "stub": ["numpy.linalg wrappers", "Ctrl-C at a library source line"]}
ASSUMPTIONS = ["well conditioned: condition number of the covariance below 1e5, distinct expected returns, strictly feasible bounds"]


def step_limit(n):
    return int(600_000 * max(1, n / 12) ** 2)


def generate(rng, i, tier):
    n = pick(rng, [(0.2, 1), (1, 2), (5, rng.randint(3, 6)), (3, rng.randint(7, 10)), (0.3, rng.randint(11, 16)), (0.06, rng.randint(25, 60))])
    kind = pick(rng, [(4, "default"), (2, "box"), (2, "short"), (2, "per_asset"), (1, "arrays"), (0.4, "infeasible"), (0.6, "pinned"), (1, "tight"), (1, "ints")])
    if n == 1:
        kind = "default"
    if n == 2:  # a pair of arrays has as many entries as a list of pairs
        kind = pick(rng, [(2, kind), (2, "arrays"), (1, "per_asset")])
    ops = []
    objects = rng.choice([1, 1, 2])
    rate = rng.choice([0, 0.3, 0.6])
    for _ in range(rng.randint(3, 12)):
        k = pick(rng, [(3, "max_sharpe"), (3, "min_volatility"), (2, "frontier"), (1.5, "perf"), (0.8, "clean"), (0.4, "setw")])
        op = {"op": k, "obj": rng.randrange(objects), "faults": []}
        if k == "frontier":
            op["points"] = rng.choice([None, 100, 30, 57, 10, 3, 1])
        if rng.random() < rate and k in ("max_sharpe", "min_volatility", "frontier"):
            if rng.random() < 0.65:
                op["faults"].append({"site": "linalg.inv", "n": pick(rng, [(3, rng.randint(0, n)), (3, rng.randint(0, 4 * n)), (2, rng.randint(0, 2 * n * n))]), "kind": rng.choice(["singular", "interrupt", "memory", "noconv"])})
            else:
                op["faults"].append({"site": "line", "n": int(10 ** rng.uniform(0, 4.6)), "kind": "interrupt"})
        ops.append(op)
    scn = {"n": n, "seed": rng.randrange(10**9), "style": pick(rng, [(4, "str"), (1, "odd"), (1, "int")]) if n <= 16 else "int", "fmt": rng.choice(["pandas", "numpy", "list"]), "bounds": kind,
            "mu": pick(rng, [(7, "plain"), (1, "ties"), (0.6, "coarse"), (0.4, "equal"), (0.6, "negative")]), "cov": pick(rng, [(8, "plain"), (0.5, "singular"), (0.5, "diag")]), "ops": ops}
    return dict(scn, mu="plain", cov="plain") if n == 1 else scn


def data(scn):
    n = scn["n"]
    m = Market(scn["seed"], n, 40, scn["style"])
    r = np.random.default_rng(scn["seed"] + 1)
    mu, S = m.mu.copy(), m.S.copy()
    if scn["mu"] == "ties":
        mu[1] = mu[0]
    elif scn["mu"] == "coarse":
        mu = np.round(mu, 1)
    elif scn["mu"] == "equal":
        mu[:] = 0.1
    elif scn["mu"] == "negative":
        mu = -np.abs(mu) - 0.001
    if scn["cov"] == "singular":
        S[1, :] = S[0, :]
        S[:, 1] = S[:, 0]
    elif scn["cov"] == "diag":
        S = np.diag(np.diag(S))
    k = scn["bounds"]
    lb, ub = np.zeros(n), np.ones(n)
    if k == "box":
        lo, hi = 0.0 if r.random() < 0.5 else 0.3 / n, float(r.uniform(1.3 / n, 1.0))
        bounds, lb, ub = (lo, hi), np.full(n, lo), np.full(n, hi)
    elif k == "short":
        lo = -float(r.choice([0.1, 0.5, 1.0]))
        bounds, lb, ub = (lo, 1), np.full(n, lo), np.ones(n)
    elif k in ("per_asset", "arrays", "pinned"):
        lb = np.round(r.uniform(-0.3, 0.5 / n, n), 3)
        ub = np.round(np.maximum(r.uniform(0.5 / n, 1, n), lb + 0.05), 3)
        if ub.sum() < 1.1:
            ub += 1.2 / n
        if k == "pinned":
            ub[0] = lb[0] = round(0.5 / n, 3)
        bounds = [(float(a), float(b)) for a, b in zip(lb, ub)] if k != "arrays" else (lb.copy(), ub.copy())
    elif k == "tight":  # the bounds leave little room: all but one weight at a bound
        d = float(r.choice([0.02, 0.05, 0.15]))
        lo, hi = (0.0, (1 + d) / n) if r.random() < 0.6 else ((1 - d) / n, 1.0)
        bounds, lb, ub = (lo, hi), np.full(n, lo), np.full(n, hi)
    elif k == "ints":
        lb, ub = r.choice([0, 0, -1], n), np.ones(n, dtype=int)
        bounds = [[(int(a), 1) for a in lb], (lb.copy(), ub.copy()), np.column_stack((lb, ub)), (lb.tolist(), ub.tolist())][int(r.integers(4))]
    elif k == "infeasible":
        bounds, lb, ub = (0, 0.5 / n), np.zeros(n), np.full(n, 0.5 / n)
    else:
        bounds = (0, 1)
    return m, mu, S, bounds, lb, ub


def build(scn):
    from pypfopt import CLA

    m, mu, S, bounds, lb, ub = data(scn)
    if scn["fmt"] == "pandas":
        return CLA(pd.Series(mu, index=m.tickers), pd.DataFrame(S, index=m.tickers, columns=m.tickers), weight_bounds=bounds)
    return CLA(list(mu) if scn["fmt"] == "list" else mu, S, weight_bounds=bounds)


def invoke(c, op):
    k = op["op"]
    if k == "max_sharpe":
        return list(c.max_sharpe().items())
    if k == "min_volatility":
        return list(c.min_volatility().items())
    v = c.efficient_frontier() if op.get("points") is None else c.efficient_frontier(points=op["points"])
    return [np.array(v[0], float), np.array(v[1], float), [np.array(w, float).ravel() for w in v[2]]]


def fresh(scn, op):
    try:
        seams.reset()
        seams.begin()
        seams.LIMIT = step_limit(scn["n"])
        c = build(scn)
        return ("ok", invoke(c, op))
    except seams.StepLimit:
        return ("exc", "StepLimit")
    except Exception as e:  # noqa
        return ("exc", type(e).__name__)


def equal(a, b, tol):
    if isinstance(a[0], tuple) or isinstance(b[0], tuple):
        return len(a) == len(b) and all(repr(x[0]) == repr(y[0]) and same(float(x[1]), float(y[1]), tol) for x, y in zip(a, b))
    return same(a, b, tol)


def execute(scn, ctx):
    seams.LIMIT = 10**9
    m, mu, S, bounds, lb, ub = data(scn)
    n = scn["n"]
    names = list(m.tickers) if scn["fmt"] == "pandas" else list(range(n))
    feasible = lb.sum() <= 1 <= ub.sum()
    well = feasible and scn["mu"] in ("plain", "negative") and scn["cov"] in ("plain", "diag") and np.linalg.cond(S) < 1e5 and np.min(np.diff(np.sort(mu)), initial=1) > 1e-4
    spec = None
    if well:
        spec = refmodel.Spec("EF", m, lb, ub)
        spec.mu, spec.S = mu, S
    objs, refs = {}, {}
    for k, op in enumerate(scn["ops"]):
        if op["obj"] not in objs:
            objs[op["obj"]] = {"c": build(scn), "w": None}
        o = objs[op["obj"]]
        c = o["c"]
        what = op["op"]
        if what == "perf":
            r = call(ctx, (), c.portfolio_performance, risk_free_rate=0.01)
            ctx.check(r.ok == (o["w"] is not None), "performance", lambda: f"{r!r} although the weights are {short(o['w'])}")
            if r.ok:
                sd = float(np.sqrt(o["w"] @ S @ o["w"]))
                want = [float(mu @ o["w"]), sd, (float(mu @ o["w"]) - 0.01) / sd]
                ctx.check(same(list(map(float, r.value)), want, 1e-8), "performance", lambda: f"{r.value} instead of {want}")
        elif what == "clean":
            r = call(ctx, (), c.clean_weights)
            ctx.check(r.ok == (o["w"] is not None), "clean-weights", lambda: repr(r))
        elif what == "setw":
            r = call(ctx, (), c.set_weights, {t: 1.0 / n for t in names})
            ctx.check(not r.ok, "set-weights", "CLA accepted set_weights")
        else:
            seams.STEPS, seams.LIMIT = 0, step_limit(scn["n"])
            r = call(ctx, op["faults"], invoke, c, op)
            seams.LIMIT = 10**9
            ctx.nontrivial = True
            ctx.log(k, what, r.ok, r.value if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
            key = (what, op.get("points"))
            if key not in refs:
                refs[key] = core.isolated(__name__, "fresh", scn, op)
            ref = refs[key]
            ctx.check(ref != ("exc", "StepLimit"), "no-progress", f"{what} exceeds {step_limit(scn['n'])} steps on a new object")
            if well and np.all(ub - lb > 1e-3) and lb.sum() < 0.99 and ub.sum() > 1.01:
                ctx.check(ref[0] == "ok", "well-conditioned-call-fails", lambda: f"{what} on a new object: {ref}")
            if r.fired:
                ctx.check(not r.ok, "failure-ignored", lambda: f"{what} returned {short(r.value)} although {r.fired}")
                ctx.probe("failed at " + r.fired[0]["site"])
            else:
                ctx.check(r.ok == (ref[0] == "ok"), "depends-on-history", lambda: f"{what} (call {k}) {r!r}; a new object {short(ref)}")
            if r.ok:
                ctx.probe(what + " returned")
                ctx.check(equal(r.value, ref[1], 1e-10), "depends-on-history", lambda: f"{what} (call {k}) gave {short(r.value)}; a new object {short(ref[1])}")
                if what != "frontier":
                    o["w"] = np.array([dict((repr(a), b) for a, b in r.value)[repr(t)] for t in names], float)
                if k == [j for j, x in enumerate(scn["ops"]) if (x["op"], x.get("points")) == key][0] or r.fired == []:
                    judge(scn, what, op, r.value, names, mu, S, lb, ub, spec, ctx)
        if what != "frontier" or o["w"] is not None:
            held = c.weights
            if o["w"] is not None and not (what in ("max_sharpe", "min_volatility") and not r.ok):
                ctx.check(held is not None and np.allclose(np.asarray(held, float), o["w"], atol=1e-12), "weights-changed", lambda: f"after {what}: {short(held)} instead of {short(o['w'])}")
            elif what in ("max_sharpe", "min_volatility") and not r.ok:
                # an interruption may land just after the weights were stored; re-read what is held
                o["w"] = None if held is None else np.array(held, float)
        ctx.state(what, scn["bounds"], scn["mu"], scn["cov"], len(objs), o["w"] is not None, bool(op["faults"]))


def judge(scn, what, op, value, names, mu, S, lb, ub, spec, ctx):
    """Feasible and, for well-conditioned inputs, optimal."""
    if spec is None:
        return
    if what == "frontier":
        ws = value[2]
        ctx.check(len(value[0]) == len(value[1]) == len(ws), "frontier-shape", lambda: f"{len(value[0])} returns, {len(value[1])} risks, {len(ws)} portfolios")
        # from the maximum-return to the minimum-variance portfolio
        top, low = spec.solve("max_return", {}, False), spec.solve("min_volatility", {}, False)
        if top["status"] == low["status"] == "optimal":
            ctx.check(len(ws) > 0, "frontier-ends", "no point at all")
            ctx.check(abs(max(value[0]) + top["value"]) <= 1e-6, "frontier-ends", lambda: f"highest return on the frontier {max(value[0])}, {-top['value']} is attainable")
            ctx.check(abs(min(value[1]) - np.sqrt(low["value"])) <= 1e-5, "frontier-ends", lambda: f"lowest risk on the frontier {min(value[1])}, {np.sqrt(low['value'])} is attainable")
            ctx.count("frontier ends compared")
        sel = sorted({0, len(ws) - 1, len(ws) // 2, len(ws) // 3}) if ws else []
        for i, w in enumerate(ws):
            bad = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(float(w.sum()) - 1))
            ctx.check(bad < 1e-7, "infeasible", lambda: f"frontier point {i} breaks the bounds or budget by {bad:g}: {w.tolist()}")
            ctx.check(abs(value[0][i] - mu @ w) < 1e-8 and abs(value[1][i] - np.sqrt(w @ S @ w)) < 1e-8, "frontier-values", lambda: f"point {i}: ({value[0][i]}, {value[1][i]}) for weights with ({mu @ w}, {np.sqrt(w @ S @ w)})")
        for i in sel:
            w = ws[i]
            ref = spec.solve("efficient_return", {"target": float(mu @ w) - 1e-9}, False)
            if ref["status"] == "optimal":
                best = float(np.sqrt(ref["value"]))
                ctx.check(value[1][i] <= best + 1e-4 * max(best, 0.05), "not-efficient", lambda: f"frontier point {i} has risk {value[1][i]}, {best} is enough for its return {value[0][i]}")
                ctx.count("frontier points compared")
        return
    w = np.array([b for _, b in value], float)
    bad = max(float(np.max(lb - w)), float(np.max(w - ub)), abs(float(w.sum()) - 1))
    ctx.check(bad < 1e-7, "infeasible", lambda: f"{what} breaks the bounds or budget by {bad:g}: {w.tolist()}")
    if what == "min_volatility":
        ref = spec.solve("min_volatility", {}, False)
        if ref["status"] == "optimal":
            got, best = float(np.sqrt(w @ S @ w)), float(np.sqrt(ref["value"]))
            ctx.check(got <= best + 1e-5, "not-minimum-variance", lambda: f"volatility {got}, the minimum is {best}: {w.tolist()} against {ref['w'].tolist()}")
            ctx.count("optima compared")
    elif what == "max_sharpe":
        if spec.solve("max_return", {}, False)["value"] is None or -spec.solve("max_return", {}, False)["value"] < 1e-3:
            return
        ref = spec.solve("max_sharpe", {"rf": 0.0}, False)
        if ref["status"] == "optimal":
            got, best = float(mu @ w / np.sqrt(w @ S @ w)), -ref["value"]
            ctx.check(got >= best - 1e-4 * max(1, abs(best)), "not-maximum-sharpe", lambda: f"Sharpe ratio {got}, the maximum is {best}: {w.tolist()} against {ref['w'].tolist()}")
            ctx.count("optima compared")


def shrink(scn):
    if scn["n"] > 3:
        yield dict(scn, n=scn["n"] - 1)
    for k, v in (("style", "int"), ("fmt", "numpy"), ("bounds", "default"), ("mu", "plain"), ("cov", "plain")):
        if scn[k] != v:
            yield dict(scn, **{k: v})


def directed():
    """Two weights meet their bounds at once: lambda must not cycle through roundings of one value."""
    base = {"n": 7, "style": "int", "fmt": "pandas", "bounds": "default", "mu": "plain", "cov": "plain"}
    return [dict(base, seed=s, ops=[{"op": o, "obj": 0, "faults": []} for o in ("max_sharpe", "min_volatility", "frontier")]) for s in (249329, 658977369, 83043)]
