"""C14: hierarchical risk parity results do not depend on earlier calls."""
import numpy as np
import pandas as pd

from .. import core, seams
from ..util import Market, call, pick, same, short

ID = "C14"
RULE = ("seeded histories of 3-12 optimize calls (all scipy linkage methods), refused methods, set_weights, performance queries and dendrogram plots on one or two HRPOpt objects sharing data, "
        "with failures and interruptions injected into the n-th linkage, tree or matrix-product call; weights and clusters compared with a new object in a pristine process and with an independent "
        "recursive-bisection model, dendrogram labels and heights with the clusters of the last success; distinct = event-log digest")
RUNS = {"quick": 1300, "thorough": 120000}
BATCH = 24
ZYGOTE = True
COMPONENTS = {"real": ["pypfopt.hierarchical_portfolio", "pypfopt.plotting.plot_dendrogram", "scipy clustering", "matplotlib (Agg)"], "stub": ["scipy linkage/to_tree and numpy.linalg wrappers"]}
ASSUMPTIONS = ["scipy.cluster.hierarchy.linkage is trusted"]
METHODS = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


def generate(rng, i, tier):
    n = pick(rng, [(6, rng.randint(2, 7)), (3, rng.randint(8, 16)), (0.5, rng.randint(17, 30))])
    rate = rng.choice([0, 0.25, 0.5])
    ops = []
    objects = rng.choice([1, 1, 2])
    for _ in range(rng.randint(3, 12)):
        k = pick(rng, [(6, "optimize"), (1.3, "setw"), (1.5, "perf"), (1, "clean"), (2, "dendrogram"), (0.8, "refused")])
        op = {"op": k, "obj": rng.randrange(objects), "faults": []}
        if k == "optimize":
            op["method"] = rng.choice(METHODS + ["single", None])
        if k == "setw":
            op["seed"] = rng.randrange(10**6)
        if k == "perf" and rng.random() < 0.4:
            op["rf"], op["freq"] = rng.choice([0.0, 0.02, -0.01]), rng.choice([252, 52, 12])
        if k == "dendrogram":
            op["show"] = rng.random() < 0.75
            op["ax"] = rng.random() < 0.5
        if k == "refused":
            op["method"] = rng.choice(["nope", "", "SINGLE", "ward2"])
        if k in ("optimize", "dendrogram") and rng.random() < rate:
            site = pick(rng, [(3, "cluster.linkage"), (3, "cluster.to_tree"), (4, "linalg.multi_dot")])
            kind = rng.choice(["memory", "interrupt"] + (["value"] if "cluster" in site else ["singular"]))
            op["faults"].append({"site": site, "n": rng.randint(0, 2 * n - 3) if "multi" in site else 0, "kind": kind})
        ops.append(op)
    return {"n": n, "T": rng.choice([30, 60, 120]), "seed": rng.randrange(10**9), "style": "int" if n > 20 else pick(rng, [(5, "str"), (2, "odd"), (1, "int"), (1, "sorted")]),
            "input": rng.choice(["returns", "returns", "cov", "both"]), "dup": n > 2 and rng.random() < 0.1, "tail": rng.random() < 0.3,
            "scales": rng.random() < 0.25, "gaps": rng.choice([0, 0, 0, rng.randint(1, 5)]), "ops": ops}


def data(scn):
    m = Market(scn["seed"], scn["n"], scn["T"], scn["style"], tail=scn["tail"])
    R, S = m.returns, m.cov_frame()
    r = np.random.default_rng(scn["seed"] + 2)
    if scn["scales"]:  # from near-cash to leveraged
        d = 10 ** r.uniform(-3, 0.5, scn["n"])
        R, S = R * d, S * np.outer(d, d)
    if scn["dup"]:  # an asset listed twice under two names
        R = R.copy()
        R.iloc[:, 1] = R.iloc[:, 0]
        S = R.cov() * 252
    if scn["gaps"]:  # an asset listed later than the others, and single missing values
        R = R.copy()
        R.iloc[: scn["gaps"], 0] = np.nan
        R.iloc[r.integers(0, scn["T"]), r.integers(0, scn["n"])] = np.nan
    if scn["input"] == "cov":
        return m, None, S
    return m, R, (S if scn["input"] == "both" else None)


def build(R, S):
    from pypfopt import HRPOpt

    return HRPOpt(returns=R, cov_matrix=S)


def opt(h, op):
    return h.optimize() if op.get("method") is None else h.optimize(linkage_method=op["method"])


def fresh(scn, method):
    m, R, S = data(scn)
    h = build(R, S)
    try:
        w = opt(h, {"method": method})
    except Exception as e:  # noqa
        return ("exc", type(e).__name__, str(e))
    return ("ok", list(w.items()), np.asarray(h.weights, float), np.asarray(h.clusters, float))


def pairwise(X):
    """Covariances and correlations, each over the periods in which both assets have a return."""
    n = X.shape[1]
    cov, corr = np.zeros((n, n)), np.ones((n, n))
    for i in range(n):
        for j in range(i + 1):
            ok = np.isfinite(X[:, i]) & np.isfinite(X[:, j])
            c = np.cov(X[ok, i], X[ok, j], ddof=1)
            cov[i, j] = cov[j, i] = c[0, 1] if i != j else c[0, 0]
            if i != j:
                corr[i, j] = corr[j, i] = c[0, 1] / np.sqrt(c[0, 0] * c[1, 1])
    return cov, corr


def model(scn, method):
    """Lopez de Prado's three steps, written independently of the library."""
    import scipy.cluster.hierarchy as sch

    m, R, S = data(scn)
    if R is None:
        cov = S.to_numpy()
        sd = np.sqrt(np.diag(cov))
        corr = np.round(cov / np.outer(sd, sd), 6)
    else:
        cov, corr = pairwise(R.to_numpy())
    n = len(cov)
    d = np.sqrt(np.clip((1 - corr) / 2, 0, 1))
    link = sch.linkage(d[np.triu_indices(n, 1)], method)
    left, right = {}, {}
    for k, row in enumerate(link):
        left[n + k], right[n + k] = int(row[0]), int(row[1])

    def leaves(k):
        return [k] if k < n else leaves(left[k]) + leaves(right[k])

    def var(idx):
        iv = 1 / np.diag(cov)[idx]
        iv = iv / iv.sum()
        return float(iv @ cov[np.ix_(idx, idx)] @ iv)

    w = np.ones(n)

    def split(idx):
        if len(idx) < 2:
            return
        a, b = idx[: len(idx) // 2], idx[len(idx) // 2:]
        va, vb = var(a), var(b)
        w[a] *= vb / (va + vb)
        w[b] *= va / (va + vb)
        split(a)
        split(b)

    split(leaves(2 * n - 2))
    return w, link


def perf_model(scn, w, rf, freq):
    m, R, S = data(scn)
    if R is None:
        return None, float(np.sqrt(w @ S.to_numpy() @ w)), None
    X = R.to_numpy()
    mu = np.nanmean(X, axis=0) * freq
    sd = float(np.sqrt(w @ (pairwise(X)[0] * freq) @ w))
    return float(w @ mu), sd, (float(w @ mu) - rf) / sd


def execute(scn, ctx):
    import matplotlib.pyplot as plt
    import scipy.cluster.hierarchy as sch

    from pypfopt import plotting

    m, R, S = data(scn)
    names = list((R if R is not None else S).columns)
    objs = {}
    cache = {}

    def ref(method):
        if method not in cache:
            cache[method] = core.isolated(__name__, "fresh", scn, method)
        return cache[method]

    for k, op in enumerate(scn["ops"]):
        if op["obj"] not in objs:
            objs[op["obj"]] = {"h": build(R, S), "w": None, "clusters": None}
        o = objs[op["obj"]]
        h = o["h"]
        what = op["op"]
        ctx.nontrivial = ctx.nontrivial or what == "optimize"
        if what in ("optimize", "refused"):
            r = call(ctx, op["faults"], opt, h, op)
            ctx.log(k, what, op["method"], r.ok, r.value if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
            if what == "refused":
                ctx.check(not r.ok, "bad-method-accepted", op["method"])
            elif r.fired:
                ctx.check(not r.ok, "failure-ignored", lambda: f"optimize returned {short(r.value)} although {r.fired}")
            else:
                f = ref(op["method"])
                ctx.check(r.ok == (f[0] == "ok"), "depends-on-history", lambda: f"optimize {r!r}; a new object {short(f)}")
            if r.ok:
                check_optimum(scn, op, r.value, h, names, ref(op["method"]), ctx)
                o["w"] = np.array([r.value[t] for t in names], float)
                o["clusters"] = np.array(h.clusters, float)
            else:
                ctx.probe("optimize failed" if r.fired else "optimize refused")
        elif what == "setw":
            w = np.random.default_rng(op["seed"]).dirichlet(np.ones(scn["n"]))
            o["w"] = w
            r = call(ctx, (), h.set_weights, {t: float(x) for t, x in zip(names, w)})
            ctx.check(r.ok, "set-weights-failed", lambda: repr(r))
        elif what == "perf":
            kw = {"risk_free_rate": op["rf"], "frequency": op["freq"]} if "rf" in op else {}
            r = call(ctx, (), h.portfolio_performance, **kw)
            ctx.check(r.ok == (o["w"] is not None), "performance", lambda: f"{r!r} with weights {short(o['w'])}")
            if r.ok:
                want = perf_model(scn, o["w"], op.get("rf", 0.0), op.get("freq", 252))
                ctx.check(same(list(r.value), list(want), 1e-7), "performance", lambda: f"{r.value} instead of {want}")
        elif what == "clean":
            r = call(ctx, (), h.clean_weights)
            ctx.check(r.ok == (o["w"] is not None), "clean-weights", lambda: repr(r))
            if r.ok:
                ctx.check(list(r.value) == names and np.allclose(list(r.value.values()), o["w"], atol=1.1e-4), "clean-weights", lambda: short(r.value))
        else:
            dendrogram(scn, op, o, h, names, ref, ctx, k, plt, sch, plotting)
        # what the object holds
        held = h.weights
        ctx.check((held is None) == (o["w"] is None), "weights-lost", lambda: f"after {what}: weights {short(held)}, expected {short(o['w'])}")
        if held is not None:
            ctx.check(len(held) == len(names) and np.allclose(np.asarray(held, float), o["w"], atol=1e-12), "weights-changed", lambda: f"after {what}: {short(held)} instead of {short(o['w'])}")
        cl = h.clusters
        ctx.check((cl is None) == (o["clusters"] is None), "clusters-changed", lambda: f"after {what}: clusters {'missing' if cl is None else 'appeared'}")
        if cl is not None:
            ctx.check(np.array_equal(np.asarray(cl, float), o["clusters"]), "clusters-changed", lambda: f"after {what} {op.get('method')}: clusters are not those of the last successful optimize")
        ctx.state(what, op.get("method"), o["w"] is not None, o["clusters"] is not None, len(objs), bool(op["faults"]))


def check_optimum(scn, op, value, h, names, f, ctx):
    ctx.probe("optimize succeeded")
    ctx.check(f[0] == "ok", "depends-on-history", lambda: f"optimize gave {short(value)}; a new object raises {f[1:]}")
    ctx.check(sorted(map(repr, value)) == sorted(map(repr, names)), "tickers", lambda: f"{list(value)} for assets {names}")
    w = np.array([value[t] for t in names], float)
    ctx.check(bool((w > 0).all()) and abs(w.sum() - 1) < 1e-9, "not-a-portfolio", lambda: f"{short(value)} sums to {w.sum()}")
    ctx.check([repr(a) for a in value] == [repr(a) for a, _ in f[1]] and same(list(value.values()), [b for _, b in f[1]], 1e-12), "depends-on-history", lambda: f"optimize({op['method']}) gave {short(dict(value))}; a new object {short(f[1])}")
    ctx.check(same(np.asarray(h.clusters, float), f[3], 1e-12), "depends-on-history", "clusters differ from those of a new object")
    if not scn["dup"]:
        mw, link = model(scn, op["method"] or "single")
        ctx.check(np.allclose(w, mw, rtol=1e-6, atol=1e-9), "not-hrp", lambda: f"optimize({op['method']}) gave {w.tolist()}, hierarchical risk parity is {mw.tolist()}")
        ctx.check(np.allclose(np.asarray(h.clusters, float), link, rtol=1e-6, atol=1e-8), "not-hrp", "clusters are not the linkage of the correlation distances")
        ctx.count("model comparisons")


def dendrogram(scn, op, o, h, names, ref, ctx, k, plt, sch, plotting):
    fig, ax = plt.subplots()
    other_fig, other = plt.subplots()
    plt.figure(fig.number)
    try:
        first = o["clusters"] is None
        ax_arg = {"ax": ax} if op["ax"] else {}
        if op["ax"]:
            plt.figure(other_fig.number)
        r = call(ctx, op["faults"], plotting.plot_dendrogram, h, show_tickers=op["show"], **ax_arg)
        ctx.log(k, "dendrogram", r.ok, [f["kind"] for f in r.fired])
        if r.fired:
            ctx.check(not r.ok, "failure-ignored", lambda: f"dendrogram drawn although {r.fired}")
        else:
            ctx.check(r.ok or (first and ref(None)[0] != "ok"), "dendrogram-failed", lambda: repr(r))
        if not r.ok:
            return
        if first:  # it optimises with the default method, as documented by its warning
            f = ref(None)
            o["w"] = np.array([dict((repr(a), b) for a, b in f[1])[repr(t)] for t in names], float)
            o["clusters"] = f[3]
        want = sch.dendrogram(o["clusters"], no_plot=True)
        ctx.check(r.value is ax and not other.collections, "wrong-axes", "dendrogram not drawn on the axes asked for")
        labels = [t.get_text() for t in ax.get_xticklabels()]
        if op["show"]:
            ctx.check(labels == [str(names[i]) for i in want["leaves"]], "dendrogram-labels", lambda: f"{labels} instead of {[str(names[i]) for i in want['leaves']]}")
        got = sorted(tuple(np.round(s[:, 1], 9)) for c in ax.collections for s in c.get_segments())
        ctx.check(got == sorted(tuple(np.round(d, 9)) for d in want["dcoord"]), "dendrogram-heights", lambda: f"drawn {short(got)}, clusters {short(want['dcoord'])}")
        ctx.count("dendrograms checked")
    finally:
        plt.close(fig)
        plt.close(other_fig)


def shrink(scn):
    if scn["n"] > 2:
        yield dict(scn, n=scn["n"] - 1)
    for k, v in (("dup", False), ("scales", False), ("gaps", 0)):
        if scn[k]:
            yield dict(scn, **{k: v})
    if scn["style"] != "int":
        yield dict(scn, style="int")
