"""C09: Black-Litterman posteriors survive any query order and solver fallback."""
import numpy as np
import pandas as pd

from .. import seams
from ..util import Market, call, pick, same, short

ID = "C09"
RULE = ("seeded query orders (bl_returns, bl_cov, bl_weights/optimize with several risk aversions, portfolio_performance, set_weights, clean_weights) on one or two BlackLittermanModel objects sharing "
        "inputs (absolute or relative views, one to 2n of them, default/Idzorek/explicit uncertainties incl. certain and void views, four priors, five formats), with 'Singular matrix' and other failures "
        "and interruptions injected at the n-th solve/lstsq call or library line; every answer compared with a closed-form reference; distinct = event-log digest")
RUNS = {"quick": 9000, "thorough": 300000}
BATCH = 60
COMPONENTS = {"real": ["pypfopt.black_litterman", "numpy linear algebra"], "stub": ["numpy.linalg wrappers", "Ctrl-C at a library source line"]}
ASSUMPTIONS = ["formulas compared where the matrices are well conditioned (below 1e8), or exactly singular and solved by the fallback"]


def generate(rng, i, tier):
    n = pick(rng, [(6, rng.randint(2, 6)), (2, rng.randint(7, 12)), (0.2, 1)])
    views = rng.choice(["dict", "series", "PQ", "PQ", "PQframe", "Qonly"])
    k = n if views == "Qonly" else rng.randint(1, n) if views in ("dict", "series") else pick(rng, [(5, rng.randint(1, n)), (1, rng.randint(n, 2 * n))])
    omega = rng.choice(["none", "default", "idzorek", "idzorek", "array", "frame", "full"])
    objects = rng.choice([1, 1, 2])
    rate = rng.choice([0, 0.3, 0.6])
    ops = []
    for _ in range(rng.randint(3, 14)):
        what = pick(rng, [(3, "bl_returns"), (3, "bl_cov"), (3, "bl_weights"), (1, "optimize"), (2.5, "perf"), (1.5, "setw"), (0.7, "clean")])
        op = {"op": what, "obj": rng.randrange(objects), "faults": []}
        if what in ("bl_weights", "optimize"):
            op["ra"] = rng.choice([None, None, 0.5, 2.5, 10])
        if what == "perf":
            op["rf"] = rng.choice([0.0, 0.02, -0.01])
        if what == "setw":
            op["seed"] = rng.randrange(10**6)
        if what in ("bl_returns", "bl_cov", "bl_weights", "optimize", "perf") and rng.random() < rate:
            for _ in range(rng.choice([1, 1, 1, 2])):
                y = rng.random()
                if y < 0.7:
                    op["faults"].append({"site": "linalg.solve", "n": rng.choice([0, 0, 1]), "kind": pick(rng, [(6, "singular"), (1, "noconv"), (1, "interrupt"), (1, "memory")])})
                elif y < 0.85:
                    op["faults"].append({"site": "linalg.lstsq", "n": rng.choice([0, 0, 1]), "kind": rng.choice(["noconv", "singular", "interrupt", "memory"])})
                elif not any(f["site"] == "line" for f in op["faults"]):
                    op["faults"].append({"site": "line", "n": rng.randint(0, 60), "kind": "interrupt"})
        ops.append(op)
    return {"n": n, "k": k, "seed": rng.randrange(10**9), "style": pick(rng, [(4, "str"), (1, "odd"), (1, "int"), (1, "sorted")]), "cov": rng.choice(["frame", "frame", "array"]), "views": views, "omega": omega,
            "pi": rng.choice(["none", "array", "series", "frame", "market", "market", "equal"]), "tau": rng.choice([0.05, 0.05, 0.01, 0.5, 1.0]), "ra": rng.choice([1, 1, 2.5, 0.3]),
            "ints": rng.random() < 0.1, "kinds": rng.randrange(10**6), "dup_view": rng.random() < 0.12, "dup_asset": n > 2 and rng.random() < 0.08, "ops": ops}


def data(scn):
    n, k = scn["n"], scn["k"]
    r = np.random.default_rng(scn["seed"])
    m = Market(scn["seed"], n, 60, scn["style"])
    S = m.S.copy()
    if scn["dup_asset"]:
        S[1, :], S[:, 1] = S[0, :], S[:, 0]
        S[1, 1] = S[0, 0]
    names = list(m.tickers) if scn["cov"] == "frame" else list(range(n))
    cov = pd.DataFrame(S, index=names, columns=names) if scn["cov"] == "frame" else S
    a = {"cov_matrix": cov, "tau": scn["tau"], "risk_aversion": scn["ra"]}
    kinds = np.random.default_rng(scn["kinds"])  # the types that carry the data
    Q = np.round(r.normal(0.08, 0.15, k), 4)
    whole = (lambda x: np.rint(x).astype(np.int64)) if scn["ints"] else (lambda x: x)  # e.g. in percent
    if scn["ints"]:
        Q = np.rint(100 * Q)
    if scn["views"] in ("dict", "series"):
        ix = r.choice(n, k, replace=False)
        P = np.zeros((k, n))
        P[np.arange(k), ix] = 1
        v = {names[j]: (int if scn["ints"] else float)(q) for j, q in zip(ix, Q)}
        a["absolute_views"] = v if scn["views"] == "dict" else pd.Series(list(v.values()), index=list(v))
    elif scn["views"] == "Qonly":
        P = np.eye(n)
        a["Q"] = whole(Q.copy())
    else:
        P = np.zeros((k, n))
        for i in range(k):
            if r.random() < 0.5 and n > 1:
                x, y = r.choice(n, 2, replace=False)
                P[i, x], P[i, y] = 1, -1
            else:
                P[i, r.integers(n)] = 1
        if scn["dup_view"] and k > 1:
            P[1], Q[1] = P[0], Q[0]
        if scn["views"] == "PQframe":
            a["Q"], a["P"] = (pd.DataFrame if kinds.random() < 0.7 else pd.Series)(whole(Q)), pd.DataFrame(whole(P), columns=names)
        else:
            a["Q"], a["P"] = whole(Q.copy()) if kinds.random() < 0.8 else whole(Q.copy()).reshape(-1, 1), whole(P.copy())
    conf = None
    if scn["omega"] == "default":
        a["omega"] = "default"
    elif scn["omega"] == "idzorek":
        conf = np.round(r.uniform(0.05, 1, k), 2)
        conf[r.random(k) < 0.15] = 0
        conf[r.random(k) < 0.15] = 1
        if scn["dup_view"]:
            conf[:2] = 1
        a["omega"] = "idzorek"
        a["view_confidences"] = [float(c) for c in conf] if r.random() < 0.5 else conf.copy()
        if kinds.random() < 0.4:
            a["view_confidences"] = [tuple(float(c) for c in conf), conf.reshape(-1, 1), pd.Series(conf), pd.Series(conf, index=[f"view {j}" for j in range(k)]), [int(c) if c in (0, 1) else float(c) for c in conf]][kinds.integers(5)]
    elif scn["omega"] in ("array", "frame", "full"):
        om = np.diag(np.round(r.uniform(0.0005, 0.05, k), 5))
        if scn["omega"] == "full":
            g = r.normal(0, 0.03, (k, k))
            om = om + g @ g.T
        a["omega"] = om if scn["omega"] != "frame" else pd.DataFrame(om)
    pi = np.zeros(n)
    if scn["pi"] in ("array", "series", "frame"):
        pi = np.round(r.normal(0.06, 0.05, n), 4)
        if scn["ints"]:
            pi = np.rint(100 * pi)
        a["pi"] = whole(pi.copy()) if scn["pi"] == "array" else pd.Series(whole(pi), index=names) if scn["pi"] == "series" else pd.DataFrame(whole(pi), index=names)
    elif scn["pi"] == "equal":
        pi = np.ones(n) / n
        a["pi"] = "equal"
    elif scn["pi"] == "market":
        caps = np.round(r.uniform(1, 500, n), 2)
        rf = float(r.choice([0.0, 0.02]))
        order = r.permutation(n)
        caps_d = {names[j]: float(caps[j]) for j in order}
        a.update(pi="market", market_caps=caps_d if r.random() < 0.5 else pd.Series(caps_d))
        if scn["cov"] == "array" or kinds.random() < 0.15:  # without labels: in the order of the covariance matrix
            a["market_caps"] = [caps.copy(), pd.Series(caps, index=names), {t: float(c) for t, c in zip(names, caps)}][kinds.integers(3)]
        if rf:
            a["risk_free_rate"] = rf
        pi = scn["ra"] * S @ (caps / caps.sum()) + rf
    tau = scn["tau"]
    V = P @ (tau * S) @ P.T
    if scn["omega"] in ("none", "default"):
        Om = np.diag(np.diag(V))
    elif scn["omega"] == "idzorek":
        Om = np.diag([1e6 if c == 0 else (1 - c) / c * V[i, i] for i, c in enumerate(conf)])
    else:
        Om = np.asarray(a["omega"], float)
    return names, a, S, P, Q, Om, pi


class Ref:
    """Closed form."""

    def __init__(self, scn, S, P, Q, Om, pi):
        tau = scn["tau"]
        self.S = S
        C = tau * S @ P.T
        A = P @ C + Om
        d = 1 / np.sqrt(np.where(np.diag(A) > 1e-12, np.diag(A), 1.0))
        scaled = A * np.outer(d, d)
        ev = np.abs(np.linalg.eigvalsh((scaled + scaled.T) / 2))
        self.formula_ok = ev.min() > 1e-8 * ev.max()
        # singular: comparable with the fallback only if the rank is unmistakable
        raw = np.abs(np.linalg.eigvalsh((A + A.T) / 2))
        self.raw_cond = raw.max() / max(raw.min(), 1e-300)
        self.rank_clear = not np.any((raw > 1e-14 * raw.max()) & (raw < 1e-6 * raw.max()))
        B = np.outer(d, d) * np.linalg.inv(scaled) if self.formula_ok else np.linalg.pinv(A, rcond=1e-10, hermitian=True)
        self.rets = pi + C @ (B @ (Q - P @ pi))
        self.cov = S + tau * S - C @ B @ C.T
        self.condS = np.linalg.cond(S)


def build(scn):
    from pypfopt import BlackLittermanModel

    return BlackLittermanModel(**data(scn)[1])


def execute(scn, ctx):
    seams.LIMIT = 400_000
    names, args, S, P, Q, Om, pi = data(scn)
    n = scn["n"]
    with seams.bypass():
        ref = Ref(scn, S, P, Q, Om, pi)
    from pypfopt import BlackLittermanModel

    objs, first = {}, {}
    for k, op in enumerate(scn["ops"]):
        if op["obj"] not in objs:
            objs[op["obj"]] = {"b": BlackLittermanModel(**args), "w": None}
        o = objs[op["obj"]]
        b = o["b"]
        what = op["op"]
        ctx.nontrivial = True
        seams.STEPS = 0
        if what in ("bl_weights", "optimize"):
            f, a, kw = getattr(b, what), (), ({} if op["ra"] is None else {"risk_aversion": op["ra"]})
        elif what == "perf":
            f, a, kw = b.portfolio_performance, (), {"risk_free_rate": op["rf"]}
        elif what == "setw":
            w = np.random.default_rng(op["seed"]).dirichlet(np.ones(n))
            f, a, kw = b.set_weights, ({t: float(x) for t, x in zip(names, w)},), {}
        elif what == "clean":
            f, a, kw = b.clean_weights, (), {}
        else:
            f, a, kw = getattr(b, what), (), {}
        r = call(ctx, op["faults"], f, *a, **kw)
        ctx.log(k, what, r.ok, r.value if r.ok else type(r.exc).__name__, [x["kind"] for x in r.fired])
        ctx.state(what, scn["omega"], scn["pi"], scn["views"], o["w"] is not None, len(objs), tuple(sorted(f["site"] + f["kind"] for f in r.fired)))
        fell_back = sum(s == "linalg.lstsq" for s, _ in r.trace)
        fell_back = fell_back > 0 and (ref.formula_ok or fell_back == sum(s == "linalg.solve" for s, _ in r.trace))
        fatal = [x for x in r.fired if not (x["site"] == "linalg.solve" and x["kind"] == "singular")]
        need_w = what in ("perf", "clean")
        if fatal:
            ctx.check(not r.ok, "failure-ignored", lambda: f"{what} returned {short(r.value)} although {fatal}")
            ctx.probe("raised on " + fatal[0]["site"] + " " + fatal[0]["kind"])
        elif need_w and o["w"] is None:
            ctx.check(not r.ok, "no-weights", lambda: f"{what} returned {short(r.value)} without weights")
        else:
            ctx.check(r.ok, "query-failed", lambda: f"{what} (call {k}) {r!r}; fired {r.fired}")
        if what in ("bl_weights", "optimize") and not r.ok:
            if any(x["site"] == "line" for x in r.fired):  # may land just after the weights were stored
                o["w"] = None if b.weights is None else np.array(b.weights, float)
        if r.ok:
            ctx.probe(what + (" after fallback" if fell_back else "") + " returned")
            verify(scn, op, what, r.value, o, names, ref, fell_back, bool(r.trace) and r.trace[-1][0] == "linalg.lstsq", ctx)
            key = (what, op.get("ra"))
            if what in ("bl_returns", "bl_cov", "bl_weights", "optimize") and not fell_back and ref.formula_ok and not scn["dup_asset"]:
                if key in first:
                    ctx.check(same(r.value, first[key], 1e-9), "depends-on-history", lambda: f"{what} (call {k}) gave {short(r.value)}, earlier {short(first[key])}")
                else:
                    first[key] = r.value
            if what == "setw":
                o["w"] = w
        held = b.weights
        ctx.check((held is None) == (o["w"] is None), "weights-lost", lambda: f"after {what}: weights {short(held)}, expected {short(o['w'])}")
        if held is not None:
            ctx.check(np.allclose(np.asarray(held, float), o["w"], rtol=1e-10, atol=1e-12, equal_nan=True), "weights-changed", lambda: f"after {what}: {short(held)} instead of {short(o['w'])}")


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.max(np.abs(b)) + 1e-3)))


def verify(scn, op, what, value, o, names, ref, fell_back, fell_back_last, ctx):
    exact = ref.formula_ok or (fell_back and ref.rank_clear)  # an exactly singular system is the fallback's to solve
    tol = 1e-7 if ref.formula_ok and not fell_back else 1e-6 if ref.formula_ok and ref.raw_cond < 1e8 else 1e-3 if ref.formula_ok else 1e-4
    if what == "bl_returns":
        ctx.check(isinstance(value, pd.Series) and list(value.index) == names, "labels", lambda: short(value))
        if exact:
            ctx.check(near(value, ref.rets, tol), "not-the-posterior", lambda: f"bl_returns {value.tolist()}, formula {ref.rets.tolist()}")
            ctx.count("posteriors compared")
    elif what == "bl_cov":
        ctx.check(isinstance(value, pd.DataFrame) and list(value.index) == names and list(value.columns) == names, "labels", lambda: short(value))
        if exact:
            ctx.check(near(value, ref.cov, tol), "not-the-posterior", lambda: f"bl_cov {value.values.tolist()}, formula {ref.cov.tolist()}")
            ctx.count("posteriors compared")
    elif what in ("bl_weights", "optimize"):
        ctx.check(list(value) == names, "labels", lambda: short(value))
        w = np.array(list(value.values()), float)
        o["w"] = w
        scale = np.max(np.abs(w))
        if not scale < 1e4 or not exact:  # raw weights that nearly cancel cannot be scaled to one
            return
        ctx.check(abs(w.sum() - 1) < 1e-9 * max(1, scale), "weights-not-scaled", lambda: f"sum {w.sum()}")
        if ref.condS < 1e8:
            raw = np.linalg.solve(ref.S, ref.rets)
            ctx.check(near(w, raw / raw.sum(), max(1e-5, 100 * tol * max(1, scale))), "not-the-implied-weights", lambda: f"{what} {w.tolist()}, formula {(raw / raw.sum()).tolist()}")
            ctx.count("weights compared")
        elif fell_back and fell_back_last:  # singular covariance: least squares, exact when the posterior is attainable
            raw = np.linalg.pinv(ref.S, rcond=1e-12, hermitian=True) @ ref.rets
            if abs(raw.sum()) > 1e-3 * np.abs(raw).sum():
                ctx.check(near(w, raw / raw.sum(), 1e-4), "not-the-implied-weights", lambda: f"{what} {w.tolist()}, least squares {(raw / raw.sum()).tolist()}")
                ctx.count("least-squares weights compared")
    elif what == "perf" and ref.formula_ok and np.isfinite(o["w"]).all():
        w = o["w"]
        mu, sd = float(ref.rets @ w), float(np.sqrt(w @ ref.cov @ w))
        want = [mu, sd, (mu - op["rf"]) / sd]
        s = float(np.abs(w).max())
        if s < 1e3 and sd > 0:
            ctx.check(len(value) == 3 and all(abs(float(x) - y) <= 10 * tol * s * (1 + abs(y)) for x, y in zip(value, want)), "performance", lambda: f"{value} instead of {want}")
            ctx.count("performances compared")


def shrink(scn):
    if scn["n"] > 2 and scn["k"] < scn["n"]:
        yield dict(scn, n=scn["n"] - 1)
    if scn["k"] > 1 and scn["views"] != "Qonly":
        yield dict(scn, k=scn["k"] - 1)
    for k, v in (("style", "int"), ("ints", False), ("cov", "frame"), ("pi", "none"), ("omega", "none"), ("dup_view", False), ("dup_asset", False)):
        if scn[k] != v:
            yield dict(scn, **{k: v})
