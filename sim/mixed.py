"""Several objects of every class (HRP, CLA, Black-Litterman, discrete allocation, covariance shrinkage, mean-variance),
on data sets with the same labels and shapes, used side by side for C04: what each returns must be what it returns alone."""
import copy

import numpy as np
import pandas as pd

from . import seams
from .util import Market, call, call_in_thread, pick, tickers

KINDS = ["HRP", "CLA", "BL", "DA", "CS", "EF"]
OPS = {"HRP": ["optimize", "optimize", "perf", "clean", "setw"], "CLA": ["max_sharpe", "min_volatility", "frontier", "perf", "clean"],
       "BL": ["bl_returns", "bl_cov", "bl_weights", "optimize", "perf", "setw", "clean"], "DA": ["greedy", "greedy", "lp"],
       "CS": ["shrunk", "ledoit", "oas"], "EF": ["min_volatility", "max_sharpe", "efficient_return", "quadratic", "perf", "clean"]}
LINKAGES = ["single", "complete", "average", "ward"]
TARGETS = ["constant_variance", "single_factor", "constant_correlation"]


def gen_op(rng, kind, oid, rate, threaded):
    op = {"op": "use", "obj": oid, "m": rng.choice(OPS[kind]), "x": rng.randrange(12), "faults": []}
    if rng.random() < rate:
        op["faults"].append(rng.choice([{"site": "linalg.inv", "n": rng.randint(0, 6), "kind": "singular"}, {"site": "linalg.solve", "n": 0, "kind": rng.choice(["singular", "memory"])},
                                        {"site": "solver", "n": 0, "kind": rng.choice(["infeasible", "solver_error", "memory", "infeasible_inaccurate_iterate"])},
                                        {"site": "cluster.linkage", "n": 0, "kind": "value"}, {"site": "linalg.cholesky", "n": 0, "kind": "notpd"}]))
    return op


def gen_new(rng, kind, oid, nd):
    return {"op": "new", "id": oid, "cls": kind, "data": rng.randrange(nd), "var": rng.randrange(4), "fmt": rng.choice(["pandas", "pandas", "numpy"])}


def generate(rng, threaded):
    nd = rng.choice([2, 2, 3])
    cfg = {"n": rng.randint(2, 4) if threaded else pick(rng, [(4, rng.randint(2, 5)), (1, rng.randint(6, 10))]), "T": 30, "seed": rng.randrange(10**9), "nd": nd,
           "style": pick(rng, [(3, "str"), (1, "odd"), (1, "int"), (1, "sorted")])}
    cfg["same"] = [k for k in ("mu", "cov", "prices", "w", "short", "views", "nviews", "caps", "conf") if rng.random() < 0.3]
    rate = rng.choice([0, 0, 0.25])
    main = rng.choice(KINDS)  # most objects of a run are of one class
    if threaded:
        threads = []
        for _ in range(rng.randint(2, 3)):
            kind = main if rng.random() < 0.8 else rng.choice(KINDS)
            threads.append([gen_new(rng, kind, 0, nd)] + [gen_op(rng, kind, 0, rate, True) for _ in range(rng.randint(1, 4))] + [{"op": "report", "obj": 0}])
        return {"mixed": True, "cfg": cfg, "threads": threads, "ops": [], "schedule": {"seed": rng.randrange(10**9), "p": rng.choice([0.3, 0.05, 0.01, 0.003])}}
    ops, kinds = [], {}
    for oid in range(rng.randint(2, 4)):
        kinds[oid] = main if rng.random() < 0.75 else rng.choice(KINDS)
        ops.append(gen_new(rng, kinds[oid], oid, nd))
        if oid and rng.random() < 0.5:  # the same configuration on other data
            ops[-1].update({a: ops[-2][a] for a in ("var", "fmt") if ops[-2]["cls"] == kinds[oid]}, data=(ops[-2]["data"] + 1) % nd)
    for _ in range(rng.randint(4, 12)):
        oid = rng.choice(list(kinds))
        y = rng.random()
        if y < 0.1 and len(kinds) < 6 and kinds[oid] != "CS":
            new = max(kinds) + 1
            kinds[new] = kinds[oid]
            ops.append({"op": "copy", "obj": oid, "id": new})
        elif y < 0.2:
            ops.append({"op": "report", "obj": oid})
        else:
            op = gen_op(rng, kinds[oid], oid, rate, False)
            ops.append(op)
            same = [o for o in kinds if kinds[o] == kinds[oid] and o != oid]
            if same and rng.random() < 0.5:  # the same question to another object
                ops.append(dict(op, obj=rng.choice(same), faults=[]))
    ops += [{"op": "report", "obj": oid} for oid in kinds]
    return {"mixed": True, "cfg": cfg, "ops": ops}


class Inputs:
    """Input objects, shared by all objects built from the same data set."""

    def __init__(self, cfg):
        self.cfg = cfg
        names = tickers(cfg["style"], cfg["n"], cfg["seed"] % 991)
        self.sets = []
        for d in range(cfg["nd"]):
            m = Market(cfg["seed"] + 13 * d, cfg["n"], cfg["T"], "int")
            m.tickers = names
            if d:
                m.R[0], m.R[-1] = self.sets[0][0].R[0], self.sets[0][0].R[-1]
            m.returns = pd.DataFrame(m.R, columns=names, index=m.dates[1:])
            r = np.random.default_rng(cfg["seed"] + d)
            n = cfg["n"]
            w = np.round(r.dirichlet(np.ones(n)), 4)
            s = w * np.where(np.arange(n) % 2 == 0, 1, -0.5)
            g = {"mu": m.mu_series(), "cov": m.cov_frame(), "ret": m.returns, "prices": pd.Series(np.round(r.uniform(5, 90, n), 2), index=names),
                 "w": dict(zip(names, w.tolist())), "short": dict(zip(names, (s + (1 - s.sum()) * (np.arange(n) == 0)).tolist())), "views": {t: float(v) for t, v in zip(names[: max(1, n // 2)], np.round(r.normal(0.08, 0.1, n), 3))},
                 "caps": dict(zip(names, np.round(r.uniform(1, 90, n), 1).tolist())), "conf": np.round(r.uniform(0.1, 0.9, max(1, n // 2)), 2).tolist(),
                 "setw": dict(zip(names, np.round(r.dirichlet(np.ones(n)), 3).tolist())), "nviews": dict(enumerate(np.round(r.normal(0.08, 0.1, max(1, n // 2)), 3).tolist()))}
            if d:  # some of the inputs are those of the first data set
                same = cfg.get("same", ())
                m0, g0 = self.sets[0]
                g.update({k: g0[k] for k in same})
                for k, a in (("mu", "mu"), ("cov", "S")):
                    if k in same:
                        setattr(m, a, getattr(m0, a))
            self.sets.append((m, g))


def construct(op, inp):
    import pypfopt
    from pypfopt.risk_models import CovarianceShrinkage

    m, g = inp.sets[op["data"]]
    v, k = op["var"], op["cls"]
    frames = op["fmt"] == "pandas"
    mu, S = (g["mu"], g["cov"]) if frames else (m.mu, m.S)
    if k == "HRP":
        return pypfopt.HRPOpt(returns=g["ret"]) if v % 2 else pypfopt.HRPOpt(cov_matrix=g["cov"])
    if k == "CLA":
        return pypfopt.CLA(mu, S) if v % 2 else pypfopt.CLA(mu, S, weight_bounds=(-1, 1))
    if k == "BL":
        views = g["views"] if frames else g["nviews"]
        kw = [{}, {"omega": "idzorek", "view_confidences": g["conf"]}, {"pi": "equal"}, {"pi": "market", "market_caps": g["caps"]} if frames else {"tau": 0.2}][v]
        return pypfopt.BlackLittermanModel(S, absolute_views=views, **kw)
    if k == "DA":
        return pypfopt.DiscreteAllocation(g["short"] if v == 3 else g["w"], g["prices"], total_portfolio_value=[10000, 5000, 10000, 8000][v])
    if k == "CS":
        return CovarianceShrinkage(g["ret"], returns_data=True, frequency=252 if v % 2 else 12)
    return pypfopt.EfficientFrontier(mu, S, solver="CLARABEL", **({"weight_bounds": (-1, 1)} if v % 2 else {}))


def invoke(o, kind, op, inp):
    m, x, k = op["m"], op["x"], kind
    if m == "perf":
        return o.portfolio_performance(risk_free_rate=[0.0, 0.02, 0.05][x % 3])
    if m == "clean":
        return o.clean_weights(cutoff=[1e-4, 0.05][x % 2], rounding=[5, 2][x // 2 % 2])
    if m == "setw":
        w = inp.sets[x % len(inp.sets)][1]["setw"]
        return o.set_weights(w if set(o.tickers) == set(w) else dict(enumerate(w.values())))
    if k == "HRP":
        return o.optimize(linkage_method=LINKAGES[x % 4])
    if k == "CLA":
        return o.efficient_frontier(points=[20, 35][x % 2]) if m == "frontier" else getattr(o, m)()
    if k == "BL":
        return o.bl_weights(risk_aversion=[1, 2.5, None][x % 3]) if m in ("bl_weights", "optimize") else getattr(o, m)()
    if k == "DA":
        return o.greedy_portfolio(reinvest=bool(x % 2)) if m == "greedy" else o.lp_portfolio(reinvest=bool(x % 2), solver="ECOS_BB")
    if k == "CS":
        return o.shrunk_covariance(delta=[0.2, 0.7][x % 2]) if m == "shrunk" else o.ledoit_wolf(shrinkage_target=TARGETS[x % 3]) if m == "ledoit" else o.oracle_approximating()
    if m == "efficient_return":
        return o.efficient_return(float(np.mean(o.expected_returns)) * [1.0, 1.2][x % 2])
    if m == "quadratic":
        return o.max_quadratic_utility(risk_aversion=[1, 5][x % 2])
    return getattr(o, m)()


def report(o, kind):
    """Everything the object would tell its user now."""
    out = []
    if kind == "CS":
        return [o.delta, o.S, list(o.X.columns) if hasattr(o.X, "columns") else None]
    if kind == "DA":
        return [getattr(o, "allocation", None), sorted(map(repr, o.weights)), o.total_portfolio_value, o.short_ratio]
    w = getattr(o, "weights", None)
    out.append(None if w is None else np.asarray(w, float).ravel())
    for f in (lambda: o.clean_weights(), lambda: o.portfolio_performance()) + ((lambda: o.bl_returns(), lambda: o.bl_cov()) if kind == "BL" else ()):
        try:
            out.append(f())
        except Exception as e:  # noqa
            out.append(type(e).__name__)
    out.append([str(t) for t in o.tickers])
    return out


def plain(v):
    """Results as plain data."""
    if isinstance(v, pd.DataFrame):
        return ["frame", [str(i) for i in v.index], [str(c) for c in v.columns], v.to_numpy().tolist()]
    if isinstance(v, pd.Series):
        return ["series", [str(i) for i in v.index], v.tolist()]
    if isinstance(v, dict):
        return ["dict", [str(k) for k in v], [plain(x) for x in v.values()]]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (float, np.floating)):
        return float(v)
    return v if isinstance(v, (str, int, bool, type(None))) else int(v) if isinstance(v, np.integer) else type(v).__name__


class Sim:
    def __init__(self, scn, ctx, threaded=False, inputs=None):
        self.scn, self.ctx, self.threaded = scn, ctx, threaded
        self.inp = inputs or Inputs(scn["cfg"])
        self.objs, self.obs = {}, []

    def run(self):
        do = call_in_thread if self.threaded else call
        for k, op in enumerate(self.scn["ops"]):
            if op["op"] == "new":
                r = do(self.ctx, (), construct, op, self.inp)
                if r.ok:
                    self.objs[op["id"]] = (r.value, op["cls"])
                self.obs.append((k, ["new"] if r.ok else ["raises", type(r.exc).__name__]))
                continue
            if op["obj"] not in self.objs:
                continue
            o, kind = self.objs[op["obj"]]
            if op["op"] == "copy":
                r = do(self.ctx, (), copy.deepcopy if kind != "EF" else type(o).deepcopy, o)
                if r.ok:
                    self.objs[op["id"]] = (r.value, kind)
                else:  # copying these classes is not promised
                    self.ctx.count("copies refused")
                continue
            r = do(self.ctx, op.get("faults", ()), *((report, o, kind) if op["op"] == "report" else (invoke, o, kind, op, self.inp)))
            self.obs.append((k, ["ok", plain(r.value)] if r.ok else ["raises", type(r.exc).__name__]))
            self.ctx.log(k, kind, op.get("m", "report"), r.ok, plain(r.value) if r.ok else type(r.exc).__name__)
            self.ctx.state("mixed", kind, op.get("m", "report"), r.ok, op.get("x"))
            self.ctx.nontrivial = True
        return self


def differ(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(differ(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return not np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    return a != b
