"""C07: discrete allocations balance and never depend on earlier calls."""
import re

import numpy as np
import pandas as pd

from .. import core, seams
from ..util import call, pick, short, tickers

ID = "C07"
RULE = ("seeded sequences of 2-7 greedy and LP allocations (reinvest on/off, verbose, two integer solvers) on one or two DiscreteAllocation objects sharing their inputs, with solver failures, "
        "failing prints and interruptions between them; every returned allocation is balanced against the capital, compared with a new object in a pristine process, with permuted inputs, "
        "and (LP) with the optimum of an independent integer program; distinct = event-log digest")
RUNS = {"quick": 700, "thorough": 40000}
BATCH = 12
ZYGOTE = True
ASSUMPTIONS = ["integer solvers are trusted to their documented gap, which is relative to the money spent (ECOS_BB 1e-3, HiGHS 1e-4)", "weights sum to one (long only) up to the rounding of clean_weights"]
COMPONENTS = {"real": ["pypfopt.discrete_allocation", "cvxpy", "ECOS_BB", "HiGHS (via scipy)"], "stub": ["cvxpy.Problem.solve wrapper", "stdout"]}
STEP_LIMIT = 400_000


def generate(rng, i, tier):
    n = rng.randint(1, 6)
    if rng.random() < 0.1:
        n = rng.randint(7, 12)
    shorts = n > 1 and rng.random() < 0.45
    ops = []
    fault_rate = rng.choice([0, 0.3, 0.6])
    prices = rng.choice(["float", "cents", "int", "round", "mixed", "exact", "exact", "penny"])
    objects = rng.choice([1, 1, 2])
    for _ in range(rng.randint(2, 7)):
        kind = rng.choice(["greedy", "lp"]) if prices != "penny" else "greedy"  # millions of shares: beyond the integer solvers
        op = {"op": kind, "obj": rng.randrange(objects), "reinvest": rng.random() < 0.4, "verbose": rng.random() < 0.25, "faults": []}
        if kind == "lp":
            op["solver"] = pick(rng, [(4, "ECOS_BB"), (2, "SCIPY")])
            if rng.random() < fault_rate:
                op["faults"].append({"site": "solver", "n": rng.choice([0, 0, 1]), "kind": rng.choice(["solver_error", "user_limit", "infeasible", "unbounded", "interrupt_before", "interrupt_after", "memory", "infeasible_inaccurate", "infeasible_inaccurate_iterate", "unbounded_inaccurate_iterate", "optimal_inaccurate"])})
        if op["verbose"] and rng.random() < fault_rate:
            op["faults"].append({"site": "stdout", "n": rng.randint(0, 4), "kind": rng.choice(["epipe", "interrupt"])})
        ops.append(op)
    return {"n": n, "shorts": shorts, "data_seed": rng.randrange(10**9), "style": pick(rng, [(4, "str"), (1, "odd"), (1, "int"), (1, "sorted")]), "short_ratio": rng.choice([None, None, 0.3, 0.5, 1.0, 0]) if shorts else rng.choice([None, 0.3]),
            "value": rng.choice([10000, 1000, 5000.0, 100000, 12345.67, 300]), "prices": prices, "order": rng.choice(["same", "permuted", "superset"]),
            "zeros": rng.random() < 0.3, "clean": rng.random() < 0.5, "ops": ops}


def inputs(scn):
    """weights (dict in some order), prices (series in some order), plus a permutation of both."""
    n = scn["n"]
    r = np.random.default_rng(scn["data_seed"])
    names = tickers(scn["style"], n + 3 if scn["style"] == "int" or n + 3 <= 20 else n, scn["data_seed"] % 1000)
    extra = names[n:]
    names = names[:n]
    p = r.uniform(3, 300, len(names) + len(extra))
    if scn["prices"] == "cents":
        p = np.round(p, 2)
    elif scn["prices"] == "int":
        p = np.rint(p)
    elif scn["prices"] == "round":
        p = r.choice([10.0, 20.0, 25.0, 50.0, 100.0, 200.0], len(p))
    elif scn["prices"] == "mixed":
        p = p * r.choice([0.1, 1, 8], len(p))
    w = r.dirichlet(np.ones(n) * 1.5)
    if scn["zeros"] and n > 2:
        w[r.integers(n)] = 0
        w /= w.sum()
    if scn["shorts"]:
        k = int(r.integers(1, max(2, n // 2 + 1)))
        idx = r.choice(n, k, replace=False)
        w[idx] = -np.abs(w[idx]) - 0.02
        longs = w > 0
        if not longs.any():
            w[0] = 0.5
            longs = w > 0
        w[longs] *= (1 - w[~longs].sum()) / w[longs].sum()
    if scn["prices"] == "exact" and not scn["shorts"] and r.random() < 0.5:
        w = np.full(n, 1 / n)
    if scn["clean"]:
        w = np.round(w, int(r.choice([2, 3, 4, 5])) if scn["prices"] == "exact" else 5)
        if not scn["shorts"] and w.sum() > 1.001:
            w = np.floor(w * 1e5) / 1e5 / 1.01
    if scn["prices"] == "exact":  # the money is used up to the last cent
        p[:n] = np.abs(w) * scn["value"] / r.integers(1, 30, n)
        p[:n][p[:n] <= 0] = 10.0
    elif scn["prices"] == "penny":
        p = p * scn["value"] * 1e-8
    weights = dict(zip(names, w.tolist()))
    if scn["order"] == "same":
        prices = pd.Series(p[:n], index=names)
        extra = []
    else:
        ix = list(range(n + (len(extra) if scn["order"] == "superset" else 0)))
        r.shuffle(ix)
        alln = names + extra
        prices = pd.Series(p[ix], index=[alln[i] for i in ix])
    if scn["prices"] == "int":
        prices = prices.astype(int)
    return weights, prices, r


def build(weights, prices, scn):
    from pypfopt import DiscreteAllocation

    return DiscreteAllocation(weights, prices, total_portfolio_value=scn["value"], short_ratio=scn["short_ratio"])


def invoke(da, op):
    if op["op"] == "greedy":
        return da.greedy_portfolio(reinvest=op["reinvest"], verbose=op["verbose"])
    return da.lp_portfolio(reinvest=op["reinvest"], verbose=op["verbose"], solver=op["solver"])


def fresh(scn, op, perm=None):
    """The same call as the first thing a new object does in a pristine process."""
    weights, prices, r = inputs(scn)
    if perm == "prices":
        prices = prices.iloc[np.random.default_rng(5).permutation(len(prices))]
    elif perm == "both":
        g = np.random.default_rng(7)
        items = list(weights.items())
        weights = {items[i][0]: items[i][1] for i in g.permutation(len(items))}
        prices = prices.iloc[g.permutation(len(prices))]
    try:
        seams.reset()
        seams.begin()
        seams.LIMIT = STEP_LIMIT
        a, left = invoke(build(weights, prices, scn), dict(op, verbose=False))
    except seams.StepLimit:
        return ("exc", "StepLimit", "")
    except Exception as e:  # noqa
        return ("exc", type(e).__name__, str(e))
    st = [s for site, s in seams.TRACE if site == "solver"]
    return ("ok", list(a.items()), float(left), st)


def parts(scn, reinvest):
    """Capital and normalised weights of the long and short sub-portfolios, as documented."""
    weights, prices, _ = inputs(scn)
    neg = {t: -w for t, w in weights.items() if w < 0}
    if not neg:
        return [(dict(weights), float(scn["value"]), 1)]
    pos = {t: w for t, w in weights.items() if w >= 0}
    ratio = sum(neg.values()) if scn["short_ratio"] is None else scn["short_ratio"]
    sv = scn["value"] * ratio
    lv = scn["value"] + (sv if reinvest else 0)
    sp, sn = sum(pos.values()), sum(neg.values())
    return [({t: w / sp for t, w in pos.items()}, lv, 1), ({t: w / sn for t, w in neg.items()}, sv, -1)]


def objective(w, p, V, x):
    return float(np.abs(w * V - x * p).sum() + (V - x @ p))


def optimum(w, p, V):
    """Independent mixed-integer program (HiGHS through scipy, tight gap)."""
    from scipy.optimize import Bounds, LinearConstraint, milp

    n = len(w)
    c = np.concatenate([-p, np.ones(n)])
    A = np.block([[np.diag(p), np.eye(n)], [np.diag(p), -np.eye(n)], [p[None, :], np.zeros((1, n))]])
    lo = np.concatenate([w * V, -np.full(n, np.inf), [-np.inf]])
    hi = np.concatenate([np.full(n, np.inf), w * V, [V]])
    res = milp(c, integrality=np.concatenate([np.ones(n), np.zeros(n)]), bounds=Bounds(np.zeros(2 * n), np.full(2 * n, np.inf)), constraints=LinearConstraint(A, lo, hi), options={"mip_rel_gap": 1e-7, "time_limit": 20})
    if res.status != 0:
        return None
    x = np.rint(res.x[:n])
    if x @ p > V * (1 + 1e-9):
        return None
    return objective(w, p, V, x)


def execute(scn, ctx):
    seams.LIMIT = 10**9
    weights, prices, _ = inputs(scn)
    objs = {}
    for k, op in enumerate(scn["ops"]):
        if op["obj"] not in objs:
            objs[op["obj"]] = build(weights, prices, scn)
        da = objs[op["obj"]]
        seams.STEPS, seams.LIMIT = 0, STEP_LIMIT
        r = call(ctx, op["faults"], invoke, da, op)
        seams.LIMIT = 10**9
        ctx.nontrivial = True
        fatal = any(f["kind"] not in seams.SOLVER_BENIGN for f in r.fired)
        statuses = [s for site, s in r.trace if site == "solver"]
        ctx.log(k, op["op"], r.ok, r.value if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
        ctx.state(op["op"], op["reinvest"], scn["shorts"], scn["order"], bool(r.fired), r.ok, k > 0)
        if r.ok:
            ctx.probe(op["op"] + " returned")
            ctx.check(not any(f["site"] == "solver" for f in r.fired if f["kind"] not in seams.SOLVER_BENIGN), "solver-failure-ignored", lambda: f"{op['op']} returned {short(r.value)} although the solver failed: {r.fired}")
            check_balance(scn, op, r.value, prices, ctx)
            if op["verbose"] and not scn["shorts"]:
                check_print(r.out, r.value, weights, prices, ctx)
        ref = core.isolated(__name__, "fresh", scn, op)
        ctx.check(ref[0] == "ok" or ref[1] != "StepLimit", "no-progress", f"{op['op']} exceeds {STEP_LIMIT} steps")
        if not r.ok:
            if not r.fired:
                ctx.check(op["op"] != "greedy", "allocation-failed", lambda: f"greedy allocation of {short(weights)} at prices {short(prices.to_dict())} failed: {r!r}")
                ctx.check(ref[0] == "exc", "depends-on-history", lambda: f"{op['op']} {r!r}; a new object returns {short(ref)}")
            continue
        ctx.check(ref[0] == "ok", "depends-on-history", lambda: f"{op['op']} gave {short(r.value)}; a new object raises {ref[1:]}")
        same = list(r.value[0].items()) == [tuple(x) for x in ref[1]]
        ctx.check(same, "depends-on-history", lambda: f"{op['op']} (call {k}) gave {short(r.value[0])}; a new object {short(ref[1])}")
        ctx.check(abs(float(r.value[1]) - ref[2]) <= 1e-6 * scn["value"], "depends-on-history", lambda: f"leftover {r.value[1]}; a new object {ref[2]}")
        if k == 0 and not fatal:
            for perm in ("prices", "both"):
                alt = core.isolated(__name__, "fresh", scn, op, perm)
                ctx.check(alt[0] == "ok", "order-dependent", lambda: f"with {perm} permuted {op['op']} raises {alt[1:]}")
                if perm == "prices" or (op["op"] == "greedy" and scn["prices"] in ("float", "cents")):
                    ctx.check(sorted(map(repr, alt[1])) == sorted(map(repr, ref[1])), "order-dependent", lambda: f"{op['op']} with {perm} permuted gives {short(alt[1])} instead of {short(ref[1])}")
                check_balance(scn, op, (dict(alt[1]), alt[2]), prices, ctx)
            ctx.count("permutation checks")
        if op["op"] == "lp" and all(s == "optimal" for s in ref[3]):
            check_optimum(scn, op, dict(r.value[0]), prices, ctx)


def check_balance(scn, op, value, prices, ctx):
    alloc, left = value
    weights, _, _ = inputs(scn)
    ctx.check(isinstance(alloc, dict), "shape", lambda: type(alloc).__name__)
    for t, v in alloc.items():
        ctx.check(t in weights, "unknown-ticker", lambda: f"{t} in {short(alloc)}")
        ctx.check(float(v) == int(v) and v != 0, "not-whole-shares", lambda: f"{t}: {v}")
        ctx.check((v > 0) == (weights[t] >= 0), "wrong-sign", lambda: f"{t}: {v} shares for weight {weights[t]}")
    total = 0.0
    for w, cap, sign in parts(scn, op["reinvest"]):
        cost = sum(abs(int(v)) * float(prices[t]) for t, v in alloc.items() if t in w)
        ctx.check(cost <= cap * (1 + 1e-9) + 1e-6, "costs-too-much", lambda: f"{'long' if sign > 0 else 'short'} part costs {cost}, capital {cap} ({op['op']}, reinvest {op['reinvest']})")
        total += cap - cost
    ctx.check(abs(total - float(left)) <= 1e-5 * scn["value"] + 1e-6, "does-not-balance", lambda: f"leftover {left}, capital minus cost is {total} ({op['op']}, reinvest {op['reinvest']})")
    ctx.count("balance checks")


def check_print(out, value, weights, prices, ctx):
    """The error analysis printed is that of the allocation returned."""
    alloc, left = value
    shown = re.findall(r"Funds remaining: (-?[\d.]+)", out)
    ctx.check(all(abs(float(x) - float(left)) <= 0.00501 + 1e-9 * abs(float(left)) for x in shown), "printed-figures", lambda: f"printed {out!r}, leftover returned {left}")
    spent = sum(int(v) * float(prices[t]) for t, v in alloc.items())
    if not spent:
        return
    share = {t: int(alloc.get(t, 0)) * float(prices[t]) / spent for t in weights}
    for t, a, d in re.findall(r"^(.*): allocated (-?[\d.]+), desired (-?[\d.]+)$", out, re.M):
        t = next((x for x in weights if str(x) == t), None)
        ctx.check(t is not None and abs(share[t] - float(a)) <= 5.01e-4 and abs(weights[t] - float(d)) <= 5.01e-4, "printed-figures", lambda: f"printed {out!r}; shares held {share}, weights {weights}")
        ctx.count("printed lines compared")
    rmse = float(np.sqrt(np.mean([(weights[t] - share[t]) ** 2 for t in weights])))
    for x in re.findall(r"RMSE: ([\d.]+)", out):
        ctx.check(abs(float(x) - rmse) <= 5.01e-4, "printed-figures", lambda: f"printed {out!r}, root mean square error is {rmse}")


def check_optimum(scn, op, alloc, prices, ctx):
    for w, cap, sign in parts(scn, op["reinvest"]):
        names = list(w)
        p = np.array([float(prices[t]) for t in names])
        wv = np.array([w[t] for t in names])
        x = np.array([abs(alloc.get(t, 0)) for t in names], float)
        best = optimum(wv, p, cap)
        if best is None:
            ctx.count("reference integer program unsolved")
            continue
        got = objective(wv, p, cap, x)
        ctx.check(got <= best + (2e-3 if op["solver"] == "ECOS_BB" else 3e-4) * cap + 1e-6, "not-the-optimum", lambda: f"lp ({op['solver']}) deviation {got:.4f}, optimum {best:.4f}: {short(alloc)}")
        ctx.count("optimality checks")
