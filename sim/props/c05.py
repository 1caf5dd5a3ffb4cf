"""C05: data passed in by the caller is never modified."""
import numpy as np
import pandas as pd

from .. import core, seams
from ..util import Market, call, fingerprint, pick, short

import os

DEBUG = os.environ.get("SIM_X")
ID = "C05"
RULE = ("seeded histories of 3-9 calls from the whole public interface over one set of caller-owned frames, series, arrays, dicts and lists in many formats and memory layouts, with solver, linear-algebra, "
        "clustering, import, disk and print failures and Ctrl-C at any library line; a reader thread scheduled at library lines compares every object the call was given with its snapshot, and "
        "full fingerprints of all owned objects are compared after every call; distinct = event-log digest")
RUNS = {"quick": 3000, "thorough": 200000}
BATCH = 40
COMPONENTS = {"real": ["all of pypfopt", "cvxpy and its solvers", "pandas", "scipy", "scikit-learn", "matplotlib (Agg)"],
              "stub": ["cvxpy.Problem.solve wrapper", "numpy.linalg and clustering wrappers", "disk", "stdout", "the concurrent reader (runs at library source lines)"]}
ASSUMPTIONS = ["a concurrent reader observes the data between two library source lines"]

# ---------------------------------------------------------------- what the caller owns


class World:
    """Everything the caller owns, created lazily so that each run only builds what it uses."""

    def __init__(self, scn):
        self.scn = scn
        n = scn["n"]
        self.m = Market(scn["seed"], n, scn["T"], scn["style"])
        if "vol" in scn:  # calmer or wilder than usual
            self.m.R, self.m.returns, self.m.S, self.m.mu = self.m.R * scn["vol"], self.m.returns * scn["vol"], self.m.S * scn["vol"] ** 2, self.m.mu * scn["vol"]
        self.names = list(self.m.tickers)
        self.r = np.random.default_rng(scn["seed"] + 5)
        self.owned = {}  # name -> object
        self.quick = {}  # name -> cheap snapshot
        self.full = {}  # name -> fingerprint
        self.objs = {}
        self.touched = []
        self.buffers = {}  # name -> object of an earlier world whose place the new data takes

    def layout(self, a):
        """An array as a caller may hold it: C or Fortran order, or a view into something larger."""
        k = self.scn["layout"]
        a = np.asarray(a, float)
        if k == "F" and a.ndim == 2:
            return np.asfortranarray(a)
        if k == "view":
            big = np.full(tuple(2 * s for s in a.shape), -3.0)
            v = big[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        return np.array(a)

    def frame(self, a, index, columns):
        k = self.scn["layout"]
        f = pd.DataFrame(np.array(a, float), index=index, columns=columns)
        if k == "view":  # column blocks of their own, as after assignments
            g = pd.DataFrame(index=f.index)
            for c in f.columns:
                g[c] = f[c].to_numpy().copy()
            g.columns = f.columns
            f = g
        elif k == "F":
            f = pd.DataFrame(np.asfortranarray(f.to_numpy()), index=index, columns=columns, copy=False)
        f.columns, f.index = f.columns.copy(), f.index.copy()
        f.columns.name = "assets" if self.scn["named"] else None
        f.index.name = "when" if self.scn["named"] else None
        return f

    def series(self, a, index=None, name=None):
        s = pd.Series(np.array(a), index=list(self.names) if index is None else index, name=name or ("mine" if self.scn["named"] else None))
        return s

    def get(self, key):
        if key not in self.owned:
            v = getattr(self, "mk_" + key.partition(":")[0])(*key.split(":")[1:])
            if key in self.buffers:
                v = overwrite(self.buffers[key], v)
            self.owned[key] = v
            self.quick[key] = snapshot(v)
            self.full[key] = fingerprint(v)
        if key not in self.touched:
            self.touched.append(key)
        return self.owned[key]

    # data
    def mk_prices(self):
        v = self.m.prices.to_numpy().copy()
        if self.scn["gaps"]:
            for j in range(self.scn["n"]):
                if self.r.random() < 0.5:
                    v[self.r.integers(1, len(v) - 1, 2), j] = np.nan
                if self.r.random() < 0.3:
                    v[: int(self.r.integers(1, 6)), j] = np.nan
                if self.r.random() < 0.3:  # not traded at the end
                    v[-int(self.r.integers(1, 4)) :, j] = np.nan
        if self.scn.get("zeros"):
            v[self.r.integers(1, len(v) - 1), self.r.integers(0, self.scn["n"])] = 0.0
        return self.frame(v, self.dates(self.m.prices.index), list(self.names))

    def dates(self, ix):
        """Row labels as callers have them: mostly dates, sometimes repeated, unsorted, text or numbers."""
        k = self.scn.get("rows", "dates")
        if k == "repeated":
            v = list(ix)
            v[3], v[-1] = v[2], v[-2]
            return pd.DatetimeIndex(v)
        if k == "unsorted":
            return ix[::-1]
        if k == "text":
            return pd.Index([str(d.date()) for d in ix])
        if k == "numbers":
            return pd.RangeIndex(len(ix))
        return ix

    def mk_returns(self):
        v = self.m.returns.to_numpy().copy()
        if self.scn["gaps"] and self.r.random() < 0.4:
            v[self.r.integers(1, len(v) - 1), 0] = np.nan
        if self.scn["gaps"] and self.r.random() < 0.3:
            v[[0, -1][self.r.integers(0, 2)], self.r.integers(0, self.scn["n"])] = np.nan
        return self.frame(v, self.dates(self.m.returns.index), list(self.names))

    def mk_cleanreturns(self):
        return self.frame(self.m.returns, self.dates(self.m.returns.index), list(self.names))

    def mk_intprices(self):
        f = pd.DataFrame(np.rint(self.m.prices.to_numpy()).astype(np.int64) + 1, index=self.m.prices.index, columns=list(self.names))
        f[self.names[0]] = f[self.names[0]].astype(float) + 0.5
        return f

    def mk_arrprices(self):
        return self.layout(self.m.prices)

    def mk_listprices(self):
        return self.m.prices.to_numpy().tolist()

    def mk_arrreturns(self):
        a = self.layout(self.m.returns)
        if self.scn["gaps"] and self.r.random() < 0.3:
            a[self.r.integers(0, len(a)), self.r.integers(0, self.scn["n"])] = np.nan
        return a

    def mk_market(self, kind="frame"):
        x = 100 * np.cumprod(1 + self.r.normal(0.0005, 0.01, len(self.m.prices)))
        s = pd.Series(x, index=self.m.prices.index, name="SPY")
        return s if kind == "series" else s.to_frame()

    def mk_mktret(self):
        return pd.DataFrame({"SPY": self.r.normal(0.0005, 0.01, len(self.m.returns))}, index=self.m.returns.index)

    def mk_mu(self, kind="series"):
        mu = self.m.mu
        if self.scn.get("ties"):
            mu = np.full(len(mu), 0.07) if self.r.random() < 0.5 else np.where(np.arange(len(mu)) % 2, 0.07, mu)
        if kind == "array":
            return self.layout(mu)
        if kind == "list":
            return [float(x) for x in mu]
        if kind == "frame":
            return pd.DataFrame({"mu": mu}, index=list(self.names))
        return self.series(mu)

    def mk_cov(self, kind="frame"):
        if kind == "array":
            return self.layout(self.m.S)
        if kind == "nested":
            return self.m.S.tolist()
        return self.frame(self.m.S, list(self.names), list(self.names))

    def mk_badcov(self, kind="frame"):  # not positive definite
        S = self.m.S.copy()
        S[0, 0] *= 0.01
        return self.layout(S) if kind == "array" else self.frame(S, list(self.names), list(self.names))

    def mk_corr(self, kind="frame"):
        sd = np.sqrt(np.diag(self.m.S))
        C = self.m.S / np.outer(sd, sd)
        return self.layout(C) if kind == "array" else self.frame(C, list(self.names), list(self.names))

    def mk_sds(self):
        return self.layout(np.sqrt(np.diag(self.m.S)))

    def mk_bounds(self, kind):
        n = self.scn["n"]
        lb, ub = np.round(self.r.uniform(-0.2, 0.5 / n, n), 3), np.round(self.r.uniform(1.3 / n, 1, n), 3)
        if kind == "pairs":
            return [(float(a), float(b)) for a, b in zip(lb, ub)]
        if kind == "lists":
            return [[float(a), float(b)] for a, b in zip(lb, ub)]
        if kind == "arrays":
            return (self.layout(lb), self.layout(ub))
        if kind == "none":
            return [None, float(ub.max()) + 0.2]
        return {"tuple": (-0.3, 1), "list": [0, 1], "short": (-1, 1)}[kind]

    def mk_options(self):
        return {"max_iters": 400}

    def mk_opts_osqp(self):
        return {"max_iter": 20000, "eps_abs": 1e-7}

    def mk_sectors(self):
        d = {t: ("tech" if i % 2 else "other") for i, t in enumerate(self.names)}
        if self.r.random() < 0.3:
            d["elsewhere"] = "other"
        if self.r.random() < 0.2 and len(self.names) > 4:
            del d[self.names[-1]]
        return d

    def mk_sector_lower(self):
        return {"tech": 0.05, "other": 0.01}

    def mk_sector_upper(self):
        return {"tech": 0.95, "other": 0.99}

    def mk_wprev(self, kind="array"):
        w = self.r.dirichlet(np.ones(self.scn["n"]))
        return self.layout(w) if kind == "array" else self.series(w) if kind == "series" else [float(x) for x in w]

    def mk_bench(self):
        return self.layout(self.r.normal(0.0004, 0.01, self.scn["T"]))

    def mk_weights(self, kind="long"):
        w = self.r.dirichlet(np.ones(self.scn["n"])).round(4)
        if self.scn.get("ties"):
            w = np.full(self.scn["n"], 1.0 / self.scn["n"])
        if kind == "short":
            w[0] = -0.2
            w[1:] = w[1:] / w[1:].sum() * 1.2
        if self.r.random() < 0.3:  # as a solver leaves them
            w[self.r.integers(0, self.scn["n"])] = [1e-9, 0.0, -1e-8, 3e-5][self.r.integers(0, 4)]
        order = self.r.permutation(self.scn["n"])
        return {self.names[j]: float(w[j]) for j in order}

    def mk_latest(self):
        p = self.m.prices.iloc[-1].to_numpy()
        if self.scn.get("ties"):
            p = np.full(len(p), np.round(p[0], 2))
        order = self.r.permutation(self.scn["n"])
        s = pd.Series(p[order], index=[self.names[j] for j in order], name="last")
        if self.r.random() < 0.3:
            s["not held"] = 12.5
        return s

    def mk_caps(self, kind="dict"):
        c = self.r.uniform(1, 500, self.scn["n"]).round(2)
        if self.scn.get("ties"):
            c[:] = 100.0
        order = self.r.permutation(self.scn["n"])
        d = {self.names[j]: float(c[j]) for j in order}
        return d if kind == "dict" else pd.Series(d)

    def k(self):
        return max(1, self.scn["n"] // 2)

    def mk_views(self, kind="dict"):
        ix = self.r.choice(self.scn["n"], self.k(), replace=False)
        d = {self.names[j]: float(np.round(self.r.normal(0.08, 0.1), 3)) for j in ix}
        return d if kind == "dict" else pd.Series(d)

    def mk_P(self, kind="array"):
        P = np.zeros((self.k(), self.scn["n"]))
        for i in range(self.k()):
            a, b = self.r.choice(self.scn["n"], 2, replace=False)
            P[i, a], P[i, b] = 1, -1
        return self.layout(P) if kind == "array" else pd.DataFrame(P, columns=list(self.names))

    def mk_Q(self, kind="array"):
        q = np.round(self.r.normal(0.05, 0.05, self.k()), 3)
        return self.layout(q) if kind == "array" else pd.DataFrame(q) if kind == "frame" else pd.Series(q)

    def mk_conf(self, kind="list"):
        c = [0.0 if x < 0.15 else 1.0 if x > 0.9 else float(np.round(x, 2)) for x in self.r.random(self.k())]
        return c if kind == "list" else np.array(c) if kind == "array" else np.array(c).reshape(-1, 1)

    def mk_omega(self, kind="array"):
        d = self.r.uniform(0.001, 0.05, self.k())
        if self.r.random() < 0.3:  # a view held with certainty
            d[self.r.integers(0, self.k())] = 0.0
        om = np.diag(d)
        return self.layout(om) if kind == "array" else pd.DataFrame(om)

    def mk_prior(self, kind="series"):
        p = np.round(self.r.normal(0.06, 0.04, self.scn["n"]), 3)
        return self.layout(p) if kind == "array" else self.series(p) if kind == "series" else pd.DataFrame(p, index=list(self.names))

    def mk_range(self, kind="array"):
        lo, hi = float(self.m.mu.min()), float(self.m.mu.max())
        x = np.linspace(lo, hi * 1.1, 5)
        return x if kind == "array" else x.tolist()

    def mk_utilities(self):
        return [0.5, 2.0, 8.0]

    def mk_guess(self):
        return self.layout(np.ones(self.scn["n"]) / self.scn["n"])

    def mk_nlc(self):
        return [{"type": "eq", "fun": lambda w: np.sum(w) - 1}, {"type": "ineq", "fun": lambda w: w[0]}]

    def mk_w(self, kind="array"):
        w = self.r.dirichlet(np.ones(self.scn["n"]))
        return self.layout(w) if kind == "array" else {t: float(x) for t, x in zip(self.names, w)}


def overwrite(old, new):
    """The caller puts new data into an object that held other data, where its shape allows."""
    if type(old) is not type(new):
        return new
    if isinstance(new, pd.DataFrame):
        if old.shape != new.shape or list(old.dtypes) != list(new.dtypes):
            return new
        for j in range(old.shape[1]):
            old.iloc[:, j] = new.iloc[:, j].to_numpy().copy()
        old.index, old.columns = new.index.copy(), new.columns.copy()
    elif isinstance(new, pd.Series):
        if old.shape != new.shape or old.dtype != new.dtype:
            return new
        old.iloc[:] = new.to_numpy().copy()
        old.index, old.name = new.index.copy(), new.name
    elif isinstance(new, np.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype:
            return new
        old[...] = new
    elif isinstance(new, dict):
        old.clear()
        old.update(new)
    elif isinstance(new, list):
        old[:] = new
    elif isinstance(new, tuple):
        return tuple(overwrite(a, b) for a, b in zip(old, new))
    else:
        return new
    return old


def snapshot(x):
    """Cheap exact snapshot, compared by differs() at library lines."""
    if isinstance(x, pd.DataFrame):
        return (x.shape, x.index, x.columns, x.index.names, x.columns.names, x.to_numpy().tobytes(), [str(t) for t in x.dtypes])
    if isinstance(x, pd.Series):
        return (len(x), x.index, x.name, x.index.names, x.to_numpy().tobytes())
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return [(k, v) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [snapshot(v) if isinstance(v, (list, np.ndarray, dict)) else v for v in x]
    return x


def differs(x, s):
    if isinstance(x, pd.DataFrame):
        return (x.shape != s[0] or not (x.index is s[1] or x.index.equals(s[1])) or not (x.columns is s[2] or x.columns.equals(s[2])) or x.index.names != s[3] or x.columns.names != s[4]
                or x.to_numpy().tobytes() != s[5])
    if isinstance(x, pd.Series):
        return len(x) != s[0] or not (x.index is s[1] or x.index.equals(s[1])) or x.name != s[2] or x.index.names != s[3] or x.to_numpy().tobytes() != s[4]
    if isinstance(x, np.ndarray):
        return x.shape != s[0] or x.tobytes() != s[1] or x.flags.writeable != s[2]
    if isinstance(x, dict):
        return len(x) != len(s) or any(k != a or v != b and not callable(v) for (k, v), (a, b) in zip(x.items(), s))
    if isinstance(x, (list, tuple)):
        return len(x) != len(s) or any(differs(v, t) if isinstance(v, (list, np.ndarray, dict)) else v is not t and v != t for v, t in zip(x, s))
    return False


# ---------------------------------------------------------------- the public interface


def est(name, **kw):
    def f(W, op):
        from pypfopt import expected_returns, risk_models

        key = op["data"]
        k = dict(kw, returns_data="returns" in key)
        if name == "capm_return" and op["pick"] % 3:
            k["market_prices"] = W.get("mktret" if k["returns_data"] else "market:frame")
        if op["pick"] % 5 == 1:
            k["log_returns"] = True
        if name in ("mean_historical_return", "ema_historical_return", "capm_return"):
            if op["pick"] % 2:
                return lambda: expected_returns.return_model(W.get(key), method=name, **k)
            return lambda: getattr(expected_returns, name)(W.get(key), **k)
        if op["pick"] % 7 == 1 and name in ("sample_cov", "semicovariance", "exp_cov"):
            k["fix_method"] = "diag"
        if "det" not in name and (op["pick"] % 2 or not hasattr(risk_models, name)):
            return lambda: risk_models.risk_matrix(W.get(key), method=name, **k)
        return lambda: getattr(risk_models, name)(W.get(key), **k)

    return f


def shrinkage(W, op):
    from pypfopt import risk_models

    key = op["data"]
    what = ["shrunk_covariance", "ledoit_wolf", "single_factor", "constant_correlation", "oracle_approximating"][op["pick"] % 5]

    def go():
        cs = W.objs.get("cs:" + key) or risk_models.CovarianceShrinkage(W.get(key), returns_data="returns" in key)
        W.objs["cs:" + key] = cs
        return cs.ledoit_wolf(what) if what in ("single_factor", "constant_correlation") else getattr(cs, what)()

    return go


def simple(W, op):
    """Helpers that take data directly."""
    import pypfopt
    from pypfopt import black_litterman, discrete_allocation, expected_returns, objective_functions, risk_models

    p = op["pick"]
    fmt = "array" if p % 2 else "frame"
    sfmt = ["series", "array", "list"][p % 3]
    table = [
        lambda: expected_returns.returns_from_prices(W.get(op["data"])),
        lambda: expected_returns.prices_from_returns(W.get("returns"), log_returns=bool(p % 2)),
        lambda: risk_models.fix_nonpositive_semidefinite(W.get(["badcov", "cov"][p // 2 % 2] + ":" + fmt), fix_method=["spectral", "diag", "nope"][p % 3]),
        lambda: risk_models.cov_to_corr(W.get("cov:" + fmt)),
        lambda: risk_models.corr_to_cov(W.get("corr:" + fmt), W.get("sds")),
        lambda: black_litterman.market_implied_risk_aversion(W.get("market:" + ["frame", "series"][p % 2]), risk_free_rate=0.01),
        lambda: black_litterman.market_implied_prior_returns(W.get("caps:" + ["dict", "series"][p % 2]), 2.5, W.get("cov:frame"), 0.01),
        lambda: discrete_allocation.get_latest_prices(W.get(["prices", "intprices"][p % 2])),
        lambda: objective_functions.portfolio_variance(W.get("w"), W.get("cov:" + fmt)),
        lambda: objective_functions.portfolio_return(W.get("w"), W.get("mu:" + ["series", "array"][p % 2])),
        lambda: objective_functions.sharpe_ratio(W.get("w"), W.get("mu:" + ["series", "array"][p % 2]), W.get("cov:" + fmt)),
        lambda: objective_functions.L2_reg(W.get("w"), gamma=2),
        lambda: objective_functions.quadratic_utility(W.get("w"), W.get("mu:array"), W.get("cov:" + fmt), 3),
        lambda: objective_functions.transaction_cost(W.get("w"), W.get("wprev:array")),
        lambda: objective_functions.ex_ante_tracking_error(W.get("w"), W.get("cov:" + fmt), W.get("wprev:array")),
        lambda: objective_functions.ex_post_tracking_error(W.get("w"), W.get("cleanreturns"), W.get("bench")),
        lambda: pypfopt.base_optimizer.portfolio_performance(W.get("w:dict" if p % 2 else "w"), W.get("mu:series" if p % 2 else "mu:" + sfmt), W.get("cov:" + ("frame" if p % 2 else fmt)), verbose=bool(p % 3 == 0)),
        lambda: black_litterman.BlackLittermanModel.idzorek_method(W.get("conf:list"), W.get("cov:array"), W.get("prior:array").reshape(-1, 1), W.get("Q:array").reshape(-1, 1), W.get("P:array"), 0.05),
        lambda: black_litterman.BlackLittermanModel.default_omega(W.get("cov:array"), W.get("P:array"), 0.05),
    ]
    return table[p // 3 % len(table)]


def ef_new(cls):
    def f(W, op):
        import cvxpy as cp
        import pypfopt

        p = op["pick"]
        b = ["tuple", "list", "short", "pairs", "arrays", "none", "tuple", "short", "lists"][p % 9]
        kw = {"weight_bounds": W.get("bounds:" + b)}
        if p % 4 == 1:
            kw.update(solver="ECOS", solver_options=W.get("options"))
        elif p % 4 == 2 and cls == "EfficientFrontier":
            kw.update(solver="OSQP", solver_options=W.get("opts_osqp"))
        if p % 3 == 0:
            kw["verbose"] = False

        def go():
            mu = W.get("mu:" + ["series", "array", "list", "series"][p // 7 % 4])
            C = getattr(pypfopt, cls)
            if cls == "EfficientFrontier":
                e = C(mu, W.get("cov:" + ["frame", "array"][p // 3 % 2]), **kw)
            else:
                e = C(mu, W.get(["cleanreturns", "arrreturns", "returns"][p // 3 % 3]), **kw)
            W.objs[cls] = e
            return e

        return go

    return f


def ef_use(cls):
    def f(W, op):
        import cvxpy as cp
        from pypfopt import objective_functions as of

        if cls not in W.objs or op["pick"] % 13 < 4:
            return ef_new(cls)(W, op)
        e, p = W.objs[cls], op["pick"]
        mn = bool(p % 11 == 3)
        sharpe_class = cls == "EfficientFrontier"
        lo, hi = float(W.m.mu.min()), float(W.m.mu.max())
        t = lo + (hi - lo) * (p % 17) / 12
        risk = {"EfficientFrontier": 0.05 + (p % 9) * 0.05, "EfficientSemivariance": 0.05 + (p % 9) * 0.04, "EfficientCVaR": 0.005 + (p % 9) * 0.006, "EfficientCDaR": 0.01 + (p % 9) * 0.02}[cls]
        first = {"EfficientFrontier": "min_volatility", "EfficientSemivariance": "min_semivariance", "EfficientCVaR": "min_cvar", "EfficientCDaR": "min_cdar"}[cls]
        table = [
            lambda: getattr(e, first)(),
            lambda: e.efficient_return(t, market_neutral=mn),
            lambda: e.efficient_risk(risk, market_neutral=mn),
            lambda: e.max_quadratic_utility(1 + p % 5, market_neutral=mn),
            lambda: e.max_sharpe(risk_free_rate=lo),
            lambda: e.portfolio_performance(verbose=bool(p % 2)),
            lambda: e.add_objective(of.L2_reg, gamma=0.1),
            lambda: e.add_objective(of.transaction_cost, w_prev=W.get("wprev:array"), k=0.001),
            lambda: e.add_objective(of.ex_ante_tracking_error, cov_matrix=W.get("cov:array"), benchmark_weights=W.get("wprev:array")),
            lambda: e.add_objective(of.ex_post_tracking_error, historic_returns=W.get("cleanreturns"), benchmark_returns=W.get("bench")),
            lambda: e.add_constraint(lambda w: w <= 0.9),
            lambda: e.add_constraint(lambda w, c=W.get("wprev:array"): w <= c + 0.6),
            lambda: e.add_sector_constraints(W.get("sectors"), W.get("sector_lower"), W.get("sector_upper")),
            lambda: e.convex_objective(lambda w, cov_matrix: cp.quad_form(w, cov_matrix), cov_matrix=W.get("cov:array")),
            lambda: e.convex_objective(of.portfolio_variance, cov_matrix=W.get("cov:frame")),
            lambda: e.nonconvex_objective(of.sharpe_ratio, objective_args=(W.get("mu:array"), W.get("cov:array")), weights_sum_to_one=True),
            lambda: e.nonconvex_objective(lambda w, a: float(np.sum(np.log(np.abs(w) + 0.1) * a)), objective_args=W.get("sds"), constraints=W.get("nlc"), weights_sum_to_one=False, initial_guess=W.get("guess")),
            lambda: e.set_weights(W.get("w:dict")),
            lambda: e.clean_weights(cutoff=0.01),
            lambda: e.deepcopy(),
            lambda: e.save_weights_to_file(op["file"]),
        ]
        return table[p // 3 % len(table)]

    return f


def bl(W, op):
    import pypfopt

    p = op["pick"]
    if "bl" in W.objs and p % 3:
        b = W.objs["bl"]
        return [b.bl_returns, b.bl_cov, lambda: b.bl_weights(2), b.optimize, b.portfolio_performance, lambda: b.set_weights(W.get("w:dict")), b.clean_weights][p // 3 % 7]
    kw = {"cov_matrix": W.get("cov:" + ["frame", "array", "frame"][p % 3])}
    if p // 3 % 3 == 0 and p % 3 != 1:
        kw["absolute_views"] = W.get("views:" + ["dict", "series"][p // 5 % 2])
    else:
        kw["Q"], kw["P"] = W.get("Q:" + ["array", "frame", "series"][p // 5 % 3]), W.get("P:" + ["array", "frame"][p // 7 % 2])
    o = p // 11 % 5
    if o == 1:
        kw["omega"] = "idzorek"
        kw["view_confidences"] = W.get("conf:" + ["list", "array", "column"][p // 13 % 3])
    elif o == 2:
        kw["omega"] = W.get("omega:" + ["array", "frame"][p // 13 % 2])
    elif o == 3:
        kw["omega"] = "default"
    q = p // 17 % 5
    if q < 3:
        kw["pi"] = W.get("prior:" + ["series", "array", "frame"][q])
    elif q == 3 and p % 3 != 1:
        kw.update(pi="market", market_caps=W.get("caps:" + ["dict", "series"][p % 2]))
    elif q == 4:
        kw["pi"] = "equal"

    def go():
        W.objs["bl"] = pypfopt.BlackLittermanModel(**kw)
        return W.objs["bl"].bl_returns() if p % 2 else None

    return go


def hrp(W, op):
    import pypfopt

    p = op["pick"]
    if "hrp" in W.objs and p % 2:
        h = W.objs["hrp"]
        return [lambda: h.optimize(["single", "ward", "average", "nope"][p // 2 % 4]), lambda: h.portfolio_performance(verbose=True), lambda: h.set_weights(W.get("w:dict")), h.clean_weights][p // 8 % 4]

    def go():
        W.objs["hrp"] = h = pypfopt.HRPOpt(**[{"returns": W.get("returns" if p % 5 == 0 else "cleanreturns")}, {"cov_matrix": W.get("cov:frame")}, {"returns": W.get("cleanreturns"), "cov_matrix": W.get("cov:frame")}][p // 2 % 3])
        return h.optimize()

    return go


def cla(W, op):
    import pypfopt

    p = op["pick"]
    if "cla" in W.objs and p % 2:
        c = W.objs["cla"]
        return [c.max_sharpe, c.min_volatility, lambda: c.efficient_frontier(points=20), lambda: c.portfolio_performance(verbose=True), c.clean_weights][p // 2 % 5]
    b = ["tuple", "list", "short", "pairs", "lists", "arrays"][p // 2 % 6]

    def go():
        W.objs["cla"] = c = pypfopt.CLA(W.get("mu:" + ["series", "array", "list", "frame"][p // 3 % 4]), W.get("cov:" + ["frame", "array"][p // 5 % 2]), weight_bounds=W.get("bounds:" + b))
        return c.min_volatility()

    return go


def alloc(W, op):
    import pypfopt

    p = op["pick"]
    key = ["long", "short"][p % 2]
    if "da" in W.objs and p // 2 % 2:
        d = W.objs["da"]
        return [lambda: d.greedy_portfolio(verbose=bool(p % 3 == 0)), lambda: d.greedy_portfolio(reinvest=True), lambda: d.lp_portfolio(reinvest=bool(p % 3 == 0), verbose=bool(p % 5 == 0)), lambda: d.lp_portfolio(solver="SCIPY")][p // 4 % 4]

    def go():
        W.objs["da"] = d = pypfopt.DiscreteAllocation(W.get("weights:" + key), W.get("latest"), total_portfolio_value=5000, short_ratio=[None, 0.3][p // 4 % 2])
        return d.greedy_portfolio(reinvest=bool(p % 3))

    return go


def plots(W, op):
    import pypfopt
    from pypfopt import plotting

    p = op["pick"]
    file = {"filename": op["file"], "dpi": 350 if p % 28 == 0 else 20} if p % 4 == 0 else {}
    ef = W.objs.get("EfficientFrontier")
    table = [
        lambda: plotting.plot_covariance(W.get("cov:frame"), plot_correlation=bool(p % 2), **file),
        lambda: plotting.plot_weights(W.get("weights:long"), **file),
        lambda: plotting.plot_efficient_frontier(pypfopt.EfficientFrontier(W.get("mu:series"), W.get("cov:frame")), ef_param_range=W.get("range:" + ["array", "list"][p % 2]), show_tickers=True, **file),
        lambda: plotting.plot_efficient_frontier(pypfopt.EfficientFrontier(W.get("mu:series"), W.get("cov:frame")), ef_param="utility", ef_param_range=W.get("utilities"), **file),
        lambda: plotting.plot_efficient_frontier(pypfopt.CLA(W.get("mu:series"), W.get("cov:frame")), points=10, show_tickers=True, **file),
        lambda: plotting.plot_dendrogram(pypfopt.HRPOpt(W.get("cleanreturns")), **file),
        lambda: plotting.plot_efficient_frontier(ef if ef is not None else pypfopt.EfficientFrontier(W.get("mu:array"), W.get("cov:array")), points=4, interactive=bool(p % 2)),
    ]
    return table[p // 2 % len(table)]


OPS = {"simple": (4, simple), "shrinkage": (1.2, shrinkage), "bl": (2, bl), "hrp": (1.2, hrp), "cla": (1.2, cla), "alloc": (1.5, alloc), "plots": (0.9, plots)}
for _n in ["mean_historical_return", "ema_historical_return", "capm_return"]:
    OPS[_n] = (0.6, est(_n))
for _n in ["sample_cov", "semicovariance", "exp_cov", "min_cov_determinant", "ledoit_wolf", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating"]:
    OPS[_n] = (0.35, est(_n, **({"random_state": 3} if "det" in _n else {})))
for _c, _w in [("EfficientFrontier", 1.3), ("EfficientSemivariance", 0.6), ("EfficientCVaR", 0.6), ("EfficientCDaR", 0.6)]:
    OPS["new" + _c] = (_w / 3, ef_new(_c))
    OPS[_c] = (_w * 3, ef_use(_c))
SITES = [(3, "solver"), (2, "linalg"), (1, "cluster"), (4, "line"), (0.5, "open"), (0.5, "write"), (0.5, "stdout")]

NEAR = {"bl": [(3, "linalg"), (3, "line"), (0.3, "stdout")], "hrp": [(2, "cluster"), (1, "linalg"), (3, "line"), (0.3, "stdout")], "cla": [(3, "linalg"), (3, "line")], "alloc": [(3, "solver"), (3, "line"), (1, "stdout")],
        "plots": [(2, "open"), (2, "write"), (2, "solver"), (1, "cluster"), (3, "line")], "shrinkage": [(2, "linalg"), (3, "line")], "simple": [(1, "linalg"), (3, "line")]}
for _c in ["EfficientFrontier", "EfficientSemivariance", "EfficientCVaR", "EfficientCDaR"]:
    NEAR[_c] = [(4, "solver"), (0.5, "linalg"), (3, "line"), (0.5, "open"), (0.5, "write"), (0.3, "stdout")]


def generate(rng, i, tier):
    n = pick(rng, [(1, 2), (6, rng.randint(3, 5)), (1, rng.randint(6, 9))])
    rate = rng.choice([0, 0.4, 0.8])
    ops = []
    area = rng.random() < 0.6 and pick(rng, [(w, k) for k, (w, _) in OPS.items()])
    for _ in range(rng.randint(3, 9)):
        k = area if area and rng.random() < 0.6 else pick(rng, [(w, k) for k, (w, _) in OPS.items()])
        op = {"op": k, "pick": rng.randrange(10**5), "data": pick(rng, [(4, "prices"), (3, "returns"), (1, "intprices"), (0.6, "arrprices"), (0.4, "listprices"), (0.5, "arrreturns")]), "faults": []}
        if rng.random() < rate:
            site = pick(rng, NEAR.get(k, SITES))
            f = {"site": site, "n": 0}
            if site == "solver":
                f.update(n=rng.choice([0, 0, 0, 1, 2]), kind=rng.choice(["solver_error", "infeasible", "infeasible_inaccurate_iterate", "unbounded", "interrupt_before", "interrupt_after", "memory", "optimal_inaccurate"]))
            elif site == "linalg":
                f.update(n=int(10 ** rng.uniform(0, 1.2)) - 1, kind=rng.choice(["singular", "noconv", "interrupt", "memory", "notpd"]))
            elif site == "cluster":
                f.update(n=rng.randint(0, 1), kind=rng.choice(["interrupt", "memory", "value"]))
            elif site == "line":
                f.update(n=int(10 ** rng.uniform(0, 2.6)), kind="interrupt")
            elif site == "stdout":
                f.update(n=rng.randint(0, 2), kind=rng.choice(["epipe", "interrupt"]))
            elif site == "open":
                f.update(kind=rng.choice(["open_eio", "open_enospc", "open_eacces"]))
            else:
                f.update(n=rng.randint(0, 2), kind=rng.choice(["enospc", "eio", "short", "eintr", "interrupt"]))
            op["faults"].append(f)
        ops.append(op)
    return {"n": n, "T": rng.choice([20, 40, 60]), "seed": rng.randrange(10**9), "style": pick(rng, [(5, "str"), (1, "odd"), (1, "int")]), "layout": rng.choice(["C", "C", "F", "view"]), "gaps": rng.random() < 0.35, "ties": rng.random() < 0.2, "zeros": rng.random() < 0.08, "rows": pick(rng, [(5, "dates"), (2.6, "repeated"), (0.6, "unsorted"), (0.5, "text"), (0.5, "numbers")]),
            "named": rng.random() < 0.4, "stride": rng.choice([1, 3, 7, 20]), "ops": ops}


def execute(scn, ctx):
    import os
    import shutil
    import tempfile
    import warnings

    warnings.simplefilter("ignore")
    d = tempfile.mkdtemp(prefix="simdisk.")
    root0, cwd = seams.DISK_ROOT, os.getcwd()
    seams.DISK_ROOT = d
    try:
        run(scn, ctx, d)
    finally:
        seams.DISK_ROOT = root0
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        import matplotlib.pyplot as plt

        plt.close("all")


def run(scn, ctx, d):
    import os

    seams.LIMIT = 3_000_000
    W = World(scn)
    bad = []

    def reader(code, line, st=[0]):
        st[0] += 1
        if st[0] > 150 and st[0] % scn["stride"]:
            return
        for key in W.touched[-8:]:
            if key in W.quick and differs(W.owned[key], W.quick[key]) and not bad:
                bad.append((key, f"{os.path.basename(code.co_filename)}:{code.co_name}:{line}"))
        ctx.stats["reads by the other thread"] += 1

    for k, op in enumerate(scn["ops"]):
        op = dict(op, file=os.path.join(d, f"w{k}" + (".png" if op["op"] == "plots" else [".csv", ".json", ".txt"][op["pick"] % 3])))
        ctx.nontrivial = True
        seams.STEPS = 0
        try:
            fn = OPS[op["op"]][1](W, op)
        except Exception as e:  # the generator asked for something the classes do not offer
            raise core.HarnessError(f"{op}: {e!r}")
        seams.LINE_HOOK = lambda c, ln, st=[0]: reader(c, ln, st)
        r = call(ctx, op["faults"], fn)
        seams.LINE_HOOK = None
        what = f"{op['op']} #{op['pick']} ({'returned' if r.ok else type(r.exc).__name__})"
        if bad:
            ctx.fail("modified-during-call", f"{bad[0][0]} differed when another thread read it at {bad[0][1]} inside {what}: now {short(W.owned[bad[0][0]])}")
        for key, obj in W.owned.items():
            if key in W.full and fingerprint(obj) != W.full[key]:
                ctx.fail("modified", f"{key} differs after {what}: now {short(obj)}")
        ctx.count("objects compared after calls", len(W.owned))
        ctx.count("returned" if r.ok else "raised")
        if DEBUG and not r.ok and not r.fired:
            ctx.count(f"X {op['op']} {op['pick'] // 3 % 21} {r!r}"[:150])
        for f in r.fired:
            ctx.probe("checked after " + f["site"] + " " + f["kind"])
        ctx.log(k, op["op"], op["pick"], r.ok, type(r.value).__name__ if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired], list(W.owned))
        ctx.state(op["op"], op["pick"] % 97, r.ok, tuple(f["site"] + f["kind"] for f in r.fired), scn["layout"])


def shrink(scn):
    if scn["n"] > 3:
        yield dict(scn, n=scn["n"] - 1)
    for k, v in (("style", "str"), ("rows", "dates"), ("layout", "C"), ("gaps", False), ("named", False), ("T", 20), ("stride", 1)):
        if scn[k] != v:
            yield dict(scn, **{k: v})


def setup(tier):
    import sklearn.covariance  # noqa
    import sklearn.utils.validation  # noqa
