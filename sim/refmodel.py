"""Independent executable reference for the convex optimisers.

A Spec is the problem as the caller posed it (inputs, bounds, constraints, extra objectives).  The reference
formulates each documented optimisation problem itself (not through pypfopt), solves it with CLARABEL, and
evaluates objective and feasibility of any weights in plain numpy.
"""
import copy

import cvxpy as cp
import numpy as np

from . import seams

METHODS = {
    "EF": ["min_volatility", "max_sharpe", "max_quadratic_utility", "efficient_risk", "efficient_return"],
    "ESV": ["min_semivariance", "max_quadratic_utility", "efficient_risk", "efficient_return"],
    "CVAR": ["min_cvar", "efficient_risk", "efficient_return"],
    "CDAR": ["min_cdar", "efficient_risk", "efficient_return"],
}
PARAMETRISED = {"max_quadratic_utility", "efficient_risk", "efficient_return"}


class Spec:
    def __init__(self, cls, market, lb, ub, beta=0.95, bench=0.0, freq=252, R=None):
        self.cls, self.n, self.tickers = cls, market.n, list(market.tickers)
        self.mu, self.S = market.mu.copy(), market.S.copy()
        self.R = (market.R if R is None else R).copy()
        self.lb, self.ub = np.array(lb, float), np.array(ub, float)
        self.beta, self.bench, self.freq = beta, bench, freq
        self.lin = []  # (a, sense, b) with sense in {"<=", ">=", "=="}
        self.nonlin = []  # ("sumsq"|"norm1", c)
        self.objs = []
        self.version = 0
        self.cache = {}

    def clone(self):
        s = copy.copy(self)
        s.lin, s.nonlin, s.objs = list(self.lin), list(self.nonlin), list(self.objs)
        s.lb, s.ub = self.lb.copy(), self.ub.copy()
        s.cache = dict(self.cache)
        return s

    def touch(self):
        self.cache = {}

    # ---- effective bounds: a market-neutral call on long-only bounds amends them to (-1, 1), with a warning
    def bounds(self, mn):
        if mn and not np.any(self.lb < 0):
            return -np.ones(self.n), np.ones(self.n)
        return self.lb, self.ub

    # ---- evaluation in numpy
    def extra(self, w):
        v = 0.0
        for o in self.objs:
            if o["kind"] == "l2":
                v += o["gamma"] * float(np.sum(w**2))
            elif o["kind"] == "tc":
                v += o["k"] * float(np.abs(w - np.array(o["w_prev"])).sum())
            elif o["kind"] == "te_ante":
                d = w - np.array(o["bench"])
                v += float(d @ self.S @ d)
            elif o["kind"] == "te_post":
                x = self.R @ w - np.array(o["rb"])
                v += float(np.sum((x - x.mean()) ** 2))
        return v

    def risk(self, w):
        if self.cls == "EF":
            return float(np.sqrt(max(w @ self.S @ w, 0)))
        if self.cls == "ESV":
            d = np.minimum(self.R @ w - self.bench * w.sum(), 0)
            return float(np.sqrt((d**2).sum() / len(self.R) * self.freq))
        if self.cls == "CVAR":
            return cvar(-(self.R @ w), self.beta)
        return cvar(drawdowns(self.R @ w), self.beta)

    def reported_risk(self, w):
        """What portfolio_performance documents as the risk of these weights."""
        if self.cls == "ESV":
            d = np.minimum(self.R @ w - self.bench, 0)
            return float(np.sqrt((d**2).sum() / len(self.R) * self.freq))
        return self.risk(w)

    def value(self, m, a, w):
        """Objective (to be minimised) of method m with arguments a at weights w."""
        r, ret = self.risk(w), float(self.mu @ w)
        if m == "max_sharpe":
            return -(ret - a["rf"]) / r
        if m.startswith("min_") or m == "efficient_return":
            if self.cls == "EF":
                return r**2 + self.extra(w)
            if self.cls == "ESV":
                return r**2 / self.freq + self.extra(w)
            return r + self.extra(w)
        if m == "efficient_risk":
            return -ret + self.extra(w)
        if m == "max_quadratic_utility":
            if self.cls == "EF":
                return -ret + 0.5 * a["ra"] * r**2 + self.extra(w)
            return -ret / self.freq + 0.5 * a["ra"] * r**2 / self.freq + self.extra(w)
        if m == "convex":
            return r**2 + a["g"] * float(np.sum(w**4)) + self.extra(w)
        raise AssertionError(m)

    def infeasibility(self, m, a, w, mn):
        """List of (name, amount) of everything posed by the caller, amount > 0 where broken."""
        lb, ub = self.bounds(mn)
        out = [("lower bound", float(np.max(lb - w))), ("upper bound", float(np.max(w - ub)))]
        if a.get("budget", True):
            out.append(("budget", abs(float(w.sum()) - (0.0 if mn else 1.0))))
        for av, s, b in self.lin:
            d = float(np.dot(av, w) - b)
            out.append((f"linear {s} {b:g}", abs(d) if s == "==" else d if s == "<=" else -d))
        if m != "max_sharpe":
            for k, c in self.nonlin:
                v = float(np.sum(w**2)) if k == "sumsq" else float(np.abs(w).sum())
                out.append((k, v - c))
        if m == "efficient_return":
            out.append(("target return", a["target"] - float(self.mu @ w)))
        if m == "efficient_risk":
            out.append(("target risk", self.risk(w) - a["target"]))
        return out

    # ---- own formulation
    def solve(self, m, a, mn):
        key = (m, tuple(sorted((k, v) for k, v in a.items() if not isinstance(v, (list, dict)))), mn)
        if key not in self.cache:
            with seams.bypass():
                self.cache[key] = self._solve(m, a, mn)
        return self.cache[key]

    def _solve(self, m, a, mn):
        n, T = self.n, len(self.R)
        x = cp.Variable(n)
        cons = []
        scale = 1
        if m == "max_sharpe":
            k = cp.Variable()
            scale = k
            cons += [k >= 0, (self.mu - a["rf"]) @ x == 1]
        lb, ub = self.bounds(mn)
        fl, fu = np.isfinite(lb), np.isfinite(ub)
        if fl.any():
            cons.append(x[fl] >= lb[fl] * scale)
        if fu.any():
            cons.append(x[fu] <= ub[fu] * scale)
        if a.get("budget", True):
            cons.append(cp.sum(x) == (0 if mn else 1) * scale)
        for av, s, b in self.lin:
            e = np.array(av) @ x - b * scale
            cons.append(e <= 0 if s == "<=" else e >= 0 if s == ">=" else e == 0)
        if m != "max_sharpe":
            for kd, c in self.nonlin:
                cons.append((cp.sum_squares(x) if kd == "sumsq" else cp.norm1(x)) <= c)
        extra = 0
        for o in self.objs:
            if o["kind"] == "l2":
                extra = extra + o["gamma"] * cp.sum_squares(x)
            elif o["kind"] == "tc":
                extra = extra + o["k"] * cp.norm1(x - np.array(o["w_prev"]))
            elif o["kind"] == "te_ante":
                extra = extra + cp.quad_form(x - np.array(o["bench"]), cp.psd_wrap(self.S))
            elif o["kind"] == "te_post":
                d = self.R @ x - np.array(o["rb"])
                extra = extra + cp.sum_squares(d - cp.sum(d) / T)
        ret = self.mu @ x
        if self.cls == "EF":
            L = np.linalg.cholesky(self.S)
            risk_raw = cp.sum_squares(L.T @ x)
            risk_con = lambda t: cp.norm2(L.T @ x) <= t  # noqa
        elif self.cls == "ESV":
            d = cp.pos(-(self.R - self.bench) @ x)
            risk_raw = cp.sum_squares(d) / T
            risk_con = lambda t: cp.norm2(d) * np.sqrt(self.freq / T) <= t  # noqa
        else:
            al = cp.Variable()
            if self.cls == "CVAR":
                loss = -(self.R @ x)
            else:
                loss = cp.Variable(T)
                cum = np.tril(np.ones((T, T))) @ (self.R @ x)
                pk = cp.Variable(T)
                cons += [pk >= 0, pk >= cum, pk[1:] >= pk[:-1], loss == pk - cum]
            risk_raw = al + cp.sum(cp.pos(loss - al)) / (T * (1 - self.beta))
            risk_con = lambda t: risk_raw <= t  # noqa
        if m == "max_sharpe" or m.startswith("min_"):
            obj = risk_raw
        elif m == "efficient_return":
            obj = risk_raw
            cons.append(ret >= a["target"])
        elif m == "efficient_risk":
            obj = -ret
            cons.append(risk_con(a["target"]))
        elif m == "max_quadratic_utility":
            obj = -ret + 0.5 * a["ra"] * risk_raw if self.cls == "EF" else -ret / self.freq + 0.5 * a["ra"] * risk_raw
        elif m == "max_return":
            obj = -ret
        elif m == "convex":
            obj = risk_raw + a["g"] * cp.sum(cp.power(x, 4))
        else:
            raise AssertionError(m)
        if m not in ("max_sharpe", "max_return"):
            obj = obj + extra
        p = cp.Problem(cp.Minimize(obj), cons)
        try:
            p.solve(solver="CLARABEL")
        except cp.error.SolverError:
            return {"status": "unknown", "w": None, "value": None}
        st = p.status
        if st == "optimal":
            w = x.value
            if m == "max_sharpe":
                if k.value is None or k.value < 1e-6:
                    return {"status": "unknown", "w": None, "value": None}
                w = w / k.value
            w = np.asarray(w, float)
            return {"status": "optimal", "w": w, "value": -float(self.mu @ w) if m == "max_return" else self.value(m, a, w)}
        if st in ("infeasible", "unbounded"):
            return {"status": st, "w": None, "value": None}
        return {"status": "unknown", "w": None, "value": None}

    def minrisk_method(self):
        return METHODS[self.cls][0]


def cvar(losses, beta):
    losses = np.sort(np.asarray(losses, float))
    T = len(losses)
    i = min(max(int(np.ceil(beta * T - 1e-9)), 1) - 1, T - 1)
    al = losses[i]
    return float(al + np.maximum(losses - al, 0).sum() / (T * (1 - beta)))


def drawdowns(r):
    c = np.concatenate([[0.0], np.cumsum(r)])
    return (np.maximum.accumulate(c) - c)[1:]
