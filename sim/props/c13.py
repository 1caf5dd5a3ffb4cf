"""C13: estimators keep no memory and are safe to share."""
import numpy as np
import pandas as pd

from .. import core, sched, seams
from ..util import call, call_in_thread, pick, same, short, tickers

ID = "C13"
RULE = ("seeded histories of 3-12 calls to every return and risk estimator and to shared CovarianceShrinkage objects over several data sets (gaps, few observations, duplicated assets, returns or prices), "
        "with the caller overwriting results and editing its own data in between, failed calls, a missing scikit-learn, a failing positive-definiteness test and other linear-algebra failures; a third of the "
        "runs interleave 2-4 threads on shared data under a seeded scheduler; each result compared with the first call of a pristine process; distinct = event-log digest (threaded: plus schedule)")
RUNS = {"quick": 1200, "thorough": 100000}
BATCH = 24
ZYGOTE = True
COMPONENTS = {"real": ["pypfopt.expected_returns", "pypfopt.risk_models", "pandas", "scikit-learn", "numpy linear algebra"], "stub": ["numpy.linalg wrappers", "import of scikit-learn", "thread scheduler"]}
ASSUMPTIONS = ["threads switch at library source lines and linear-algebra calls"]
MU = ["mean_historical_return", "ema_historical_return", "capm_return"]
COV = ["sample_cov", "semicovariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating", "ledoit_wolf_constant_variance", "semivariance"]
SHRINK = ["shrunk_covariance", "ledoit_wolf", "ledoit_wolf:single_factor", "ledoit_wolf:constant_correlation", "ledoit_wolf:constant_variance", "oracle_approximating"]


def gen_op(rng, nd, threaded, rate):
    k = pick(rng, [(3, "mu"), (3.5, "cov"), (3, "shrink"), (1, "fix"), (0.7, "corr"), (0.4, "mcd"), (0.5, "convert")] + ([] if threaded else [(0.8, "fail"), (0.8, "mutate"), (0.8, "hide")]))
    op = {"op": k, "data": rng.randrange(nd), "faults": [], "scribble": rng.random() < 0.4}
    if k == "mu":
        op["method"] = rng.choice(MU)
        op["direct"] = rng.random() < 0.5
        op["kw"] = {"frequency": rng.choice([252, 252, 12]), "compounding": rng.random() < 0.6}
        if op["method"] == "ema_historical_return" and rng.random() < 0.7:
            op["kw"]["span"] = rng.choice([20, 100, 500])
        if op["method"] == "capm_return":
            op["market"] = rng.random() < 0.5
            op["kw"]["risk_free_rate"] = rng.choice([0.0, 0.02])
        if rng.random() < 0.2:
            op["kw"]["log_returns"] = True
    elif k == "cov":
        op["method"] = rng.choice(COV)
        op["direct"] = rng.random() < 0.5 and op["method"] in ("sample_cov", "semicovariance", "exp_cov")
        op["kw"] = {"frequency": rng.choice([252, 252, 12])}
        if op["method"] in ("sample_cov", "semicovariance", "exp_cov") and rng.random() < 0.3:
            op["kw"]["fix_method"] = rng.choice(["spectral", "diag"])
        if op["method"] == "exp_cov":
            op["kw"]["span"] = rng.choice([30, 180, 5])
        if "semi" in op["method"] and rng.random() < 0.4:
            op["kw"]["benchmark"] = rng.choice([0.0, 0.001])
        if rng.random() < 0.2:
            op["kw"]["log_returns"] = True
    elif k == "shrink":
        op["method"] = rng.choice(SHRINK)
        if op["method"] == "shrunk_covariance":
            op["delta"] = rng.choice([None, 0.0, 0.5, 1.0])
    elif k == "fix":
        op["seed"] = rng.randrange(10**6)
        op["method"] = rng.choice(["spectral", "diag"])
        op["frame"] = rng.random() < 0.6
    elif k == "mcd":
        op["seed"] = rng.randrange(100)
    elif k == "fail":
        op["what"] = rng.choice(["mu", "cov", "shrink", "fix"])
    if k in ("cov", "shrink", "fix", "mcd") and rng.random() < rate:
        y = rng.random()
        if y < 0.5:
            op["faults"].append({"site": "linalg.cholesky", "n": rng.choice([0, 0, 0, 1]), "kind": "notpd"})
            if rng.random() < 0.3:
                op["faults"].append({"site": "linalg.eigh", "n": 0, "kind": rng.choice(["noconv", "memory"])})
        elif y < 0.8:
            op["faults"].append({"site": rng.choice(["linalg.cholesky", "linalg.eigh", "linalg.norm"]), "n": 0, "kind": rng.choice(["memory", "interrupt"])})
        elif not threaded:
            op["faults"].append({"site": "line", "n": int(10 ** rng.uniform(0, 2.5)), "kind": "interrupt"})
    return op


def generate(rng, i, tier):
    nd = rng.randint(1, 3)
    n = pick(rng, [(6, rng.randint(2, 6)), (2, rng.randint(7, 12))])
    T = rng.choice([25, 40, 80])
    sets = [{"seed": rng.randrange(10**9), "kind": pick(rng, [(4, "plain"), (2, "gaps"), (1, "leading"), (1, "few"), (1, "dup")]), "returns": rng.random() < 0.4} for _ in range(nd)]
    if nd > 1 and rng.random() < 0.4:  # same labels, dates, shape, first and last rows
        sets[1] = dict(sets[0], twin=True)
    scn = {"n": n, "T": T, "style": pick(rng, [(5, "str"), (1, "odd"), (1, "int")]), "sets": sets}
    rate = rng.choice([0, 0.3, 0.6])
    if rng.random() < 0.33:
        scn["T"] = rng.choice([12, 25])
        scn["n"] = min(n, 4)
        scn["threads"] = [[gen_op(rng, nd, True, rate * 0.5) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 4))]
        scn["schedule"] = {"seed": rng.randrange(10**9), "p": rng.choice([0.01, 0.05, 0.2, 0.5])}
    else:
        scn["ops"] = [gen_op(rng, nd, False, rate) for _ in range(rng.randint(3, 12))]
        for _ in range(rng.randint(0, 3)):  # the same question again, of other data or of edited data
            k = rng.randrange(len(scn["ops"]))
            again = dict(scn["ops"][k])
            if nd > 1 and rng.random() < 0.5:
                again["data"] = (again["data"] + 1) % nd
            else:
                scn["ops"].insert(k + 1, dict(again, op="mutate", faults=[]))
                k += 1
            scn["ops"].insert(k + 1, again)
    return scn


def dataset(scn, d, edits=()):
    """(prices or returns, market) of data set d after the caller's own edits."""
    c = scn["sets"][d]
    if c.get("twin"):
        f, mk = dataset(scn, 0)
        f.iloc[1:-1] = f.iloc[1:-1].to_numpy()[::-1]
        for row, col, by in edits:
            f.iloc[row % len(f), col % len(f.columns)] *= by
        return f, mk
    r = np.random.default_rng(c["seed"])
    n, T = scn["n"], scn["T"]
    if c["kind"] == "few":
        T = max(4, n - 1)
    x = np.outer(r.normal(0, 0.01, T), r.uniform(0.3, 1.5, n)) + r.normal(0, 0.012, (T, n)) + r.normal(0.0005, 0.0006, n)
    if c["kind"] == "dup" and n > 1:
        x[:, 1] = x[:, 0]
    x = np.round(x, 8)
    names = tickers(scn["style"], n, c["seed"] % 997)
    dates = pd.bdate_range("2021-01-04", periods=T + 1)
    if c["returns"]:
        f = pd.DataFrame(x, columns=names, index=dates[1:])
    else:
        f = pd.DataFrame(np.vstack([np.ones(n), np.cumprod(1 + x, axis=0)]) * r.uniform(5, 200, n), columns=names, index=dates)
    if c["kind"] in ("gaps", "leading"):
        v = f.to_numpy().copy()
        for j in range(n):
            if c["kind"] == "leading":
                v[: int(r.integers(0, T // 3)), j] = np.nan
            elif r.random() < 0.6:
                v[r.integers(2, T - 2, 2), j] = np.nan
        f = pd.DataFrame(v, columns=f.columns, index=f.index)
    mk = pd.DataFrame(r.normal(0.0004, 0.01, len(f)), columns=["index"], index=f.index)
    if not c["returns"]:
        mk = (1 + mk).cumprod() * 100
    for row, col, by in edits:
        f.iloc[row % len(f), col % n] *= by
    return f, mk


def matrix(seed, n, frame, names):
    r = np.random.default_rng(seed)
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    ev = np.sort(r.uniform(0.01, 0.3, n))
    ev[0] = r.choice([-0.02, -1e-5, 0.02, -0.1, -1e-7, -1e-3])
    m = q @ np.diag(ev) @ q.T * r.choice([1, 1, 1e-3, 1e-2, 30])  # also daily variances, or per cent
    m = (m + m.T) / 2
    return pd.DataFrame(m, index=names, columns=names) if frame else m


def invoke(scn, op, data, objs):
    """Run one estimator.  data: d -> (frame, market); objs: d -> CovarianceShrinkage."""
    from pypfopt import expected_returns, risk_models

    f, mk = data[op["data"]] if isinstance(data, dict) else data
    ret = scn["sets"][op["data"]]["returns"]
    k = op["op"]
    if k == "mu":
        kw = dict(op["kw"], returns_data=ret)
        if op["method"] == "capm_return" and op["market"]:
            kw["market_prices"] = mk
        return getattr(expected_returns, op["method"])(f, **kw) if op["direct"] else expected_returns.return_model(f, method=op["method"], **kw)
    if k == "cov":
        kw = dict(op["kw"], returns_data=ret)
        return getattr(risk_models, op["method"])(f, **kw) if op["direct"] else risk_models.risk_matrix(f, method=op["method"], **kw)
    if k == "shrink":
        cs = objs(op["data"])
        name, _, target = op["method"].partition(":")
        if name == "shrunk_covariance":
            return cs.shrunk_covariance() if op["delta"] is None else cs.shrunk_covariance(op["delta"])
        return getattr(cs, name)(**({"shrinkage_target": target} if target else {}))
    if k == "fix":
        return risk_models.fix_nonpositive_semidefinite(matrix(op["seed"], scn["n"], op["frame"], list(f.columns)), fix_method=op["method"])
    if k == "mcd":
        return risk_models.min_cov_determinant(f, returns_data=ret, random_state=op["seed"])
    if k == "corr":
        c = risk_models.cov_to_corr(risk_models.sample_cov(f, returns_data=ret))
        return risk_models.corr_to_cov(c, np.arange(1, scn["n"] + 1) / 10)
    if k == "convert":
        if ret:
            return expected_returns.prices_from_returns(f)
        return expected_returns.returns_from_prices(f)
    if k == "hide":
        return risk_models.CovarianceShrinkage(f, returns_data=ret).ledoit_wolf()
    if k == "fail":
        if op["what"] == "mu":
            return expected_returns.return_model(f, method="nope")
        if op["what"] == "cov":
            return risk_models.risk_matrix(f, method="nope")
        if op["what"] == "shrink":
            return objs(op["data"]).ledoit_wolf(shrinkage_target="nope")
        return risk_models.fix_nonpositive_semidefinite(-np.eye(3), fix_method="nope")
    raise AssertionError(k)


def fresh(scn, op, edits):
    from pypfopt.risk_models import CovarianceShrinkage

    data = dataset(scn, op["data"], edits)
    try:
        return ("ok", invoke(scn, op, data, lambda d: CovarianceShrinkage(dataset(scn, d)[0], returns_data=scn["sets"][d]["returns"])))
    except Exception as e:  # noqa
        return ("exc", type(e).__name__)




def judge(scn, op, r, ref, ctx, where):
    what = f"{where} {op['op']} {op.get('method', '')}"
    fatal = [f for f in r.fired if f["kind"] != "notpd"]
    softened = [f for f in r.fired if f["kind"] == "notpd"]
    if fatal:
        ctx.check(not r.ok, "failure-ignored", lambda: f"{what} returned {short(r.value)} although {fatal}")
        ctx.probe("raised on " + fatal[0]["site"])
        return
    ctx.check(r.ok == (ref[0] == "ok"), "differs-from-first-call", lambda: f"{what} {r!r}; alone {short(ref)}; fired {r.fired}")
    if not r.ok:
        return
    v = r.value
    if softened:
        ctx.probe("definiteness test failed")
        diag = op.get("method") == "diag" or op.get("kw", {}).get("fix_method") == "diag"
        if not diag:  # the spectral repair of a definite matrix is that matrix
            a, b = np.asarray(v, float), np.asarray(ref[1], float)
            ctx.check(a.shape == b.shape and np.abs(a - b).max() <= 1e-8 * np.abs(b).max(), "repair-changed-the-estimate", lambda: f"{what}: {a.tolist()} instead of {b.tolist()}")
    else:
        ctx.check(type(v) is type(ref[1]) and same(v, ref[1], 1e-11), "differs-from-first-call", lambda: f"{what} gave {short(np.asarray(v).tolist())}; alone {short(np.asarray(ref[1]).tolist())}")
    ctx.count("results compared")
    if op["op"] in ("cov", "shrink", "fix", "mcd"):
        names = list(dataset(scn, op["data"])[0].columns)
        if op["op"] != "fix" or op["frame"]:
            ctx.check(isinstance(v, pd.DataFrame) and list(v.index) == names and list(v.columns) == names, "labels", lambda: f"{what}: {short(v)}")
        m = np.asarray(v, float)
        scale = np.abs(m).max()
        ctx.check(np.isfinite(m).all() and np.abs(m - m.T).max() <= 1e-10 * scale, "not-symmetric", lambda: f"{what}: {m.tolist()}")
        ctx.check(softened and diag or np.linalg.eigvalsh((m + m.T) / 2)[0] >= -1e-9 * scale, "not-psd", lambda: f"{what}: eigenvalues {np.linalg.eigvalsh(m).tolist()}")
        if op["op"] == "fix" and not softened:
            raw = np.asarray(matrix(op["seed"], scn["n"], False, None))
            q, V = np.linalg.eigh(raw)
            want = raw if q[0] > 0 else (V * np.maximum(q, 0)) @ V.T if op["method"] == "spectral" else raw - 1.1 * q[0] * np.eye(len(raw))
            ctx.check(np.abs(m - want).max() <= 1e-9 * scale, "not-the-documented-repair", lambda: f"{what}: {m.tolist()} instead of {want.tolist()}")
        ctx.count("covariances checked")


def execute(scn, ctx):
    from pypfopt.risk_models import CovarianceShrinkage

    data = {d: dataset(scn, d) for d in range(len(scn["sets"]))}
    own = {}

    def objs(d):
        if d not in own:
            own[d] = CovarianceShrinkage(dataset(scn, d)[0], returns_data=scn["sets"][d]["returns"])
        return own[d]

    if "threads" in scn:
        return threaded(scn, ctx, data, objs)
    edits = {d: [] for d in data}
    for k, op in enumerate(scn["ops"]):
        ctx.nontrivial = True
        d = op["data"]
        if op["op"] == "mutate":  # the caller edits its own data
            e = [k * 7 + 3, k, 1.05 if not scn["sets"][d]["returns"] else -0.5]
            f = data[d][0]
            f.iloc[e[0] % len(f), e[1] % scn["n"]] *= e[2]
            edits[d].append(e)
            continue
        if op["op"] == "shrink":
            call(ctx, (), objs, d)  # construction is not what is being failed
        if op["op"] == "hide":
            with seams.hidden_modules("sklearn"):
                r = call(ctx, (), invoke, scn, op, data, objs)
            ctx.check(not r.ok and isinstance(r.exc, ImportError), "missing-dependency-ignored", lambda: repr(r))
            ctx.count("fault:import:sklearn")
        elif op["op"] == "fail":
            r = call(ctx, (), invoke, scn, op, data, objs)
            ctx.check(not r.ok, "bad-argument-accepted", lambda: f"{op['what']}: {short(r.value)}")
        else:
            r = call(ctx, op["faults"], invoke, scn, op, data, objs)
            judge(scn, op, r, core.isolated(__name__, "fresh", scn, op, edits[d] if op["op"] != "shrink" else ()), ctx, f"call {k}")
        ctx.log(k, op["op"], op.get("method"), r.ok, r.value if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
        ctx.state(op["op"], op.get("method"), scn["sets"][d]["kind"], scn["sets"][d]["returns"], r.ok, tuple(f["kind"] for f in r.fired), bool(edits[d]))
        if r.ok and op["scribble"] and op["op"] != "fix":  # the result is the caller's to overwrite
            v = r.value
            if isinstance(v, pd.DataFrame):
                v.iloc[:, :] = -7.0
            elif isinstance(v, pd.Series):
                v.iloc[:] = -7.0
            elif isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = -7.0


def threaded(scn, ctx, data, objs):
    refs = [[core.isolated(__name__, "fresh", scn, op, ()) for op in ops] for ops in scn["threads"]]
    for ops in scn["threads"]:
        for op in ops:
            if op["op"] == "shrink":
                objs(op["data"])
    out = [[] for _ in scn["threads"]]

    def body(t):
        def run():
            for op in scn["threads"][t]:
                out[t].append(call_in_thread(ctx, op["faults"], invoke, scn, op, data, objs))
        return run

    sc = sched.Scheduler([body(t) for t in range(len(out))], scn["schedule"])
    res = sc.run()
    ctx.trace = sc.trace
    ctx.nontrivial = True
    ctx.count("thread switches", len(sc.trace))
    ctx.count("threaded runs")
    ctx.stats["steps"] += sc.step
    for r in res:
        if r[0] == "exc":
            raise r[1]
    for t, ops in enumerate(scn["threads"]):
        for op, r, ref in zip(ops, out[t], refs[t]):
            ctx.log(t, op["op"], op.get("method"), r.ok, r.value if r.ok else type(r.exc).__name__)
            judge(scn, op, r, ref, ctx, f"thread {t}")
    ctx.log("schedule", sc.trace)
    for w in set(sc.where):
        ctx.state("switch", w)


def shrink(scn):
    if "threads" in scn:
        for t in range(len(scn["threads"])):
            if len(scn["threads"]) > 2:
                yield dict(scn, threads=scn["threads"][:t] + scn["threads"][t + 1:])
            for j in range(len(scn["threads"][t])):
                if len(scn["threads"][t]) > 1:
                    yield dict(scn, threads=scn["threads"][:t] + [scn["threads"][t][:j] + scn["threads"][t][j + 1:]] + scn["threads"][t + 1:])
    if scn["n"] > 2:
        yield dict(scn, n=scn["n"] - 1)
    if scn["T"] > 12:
        yield dict(scn, T=12)
    if scn["style"] != "int":
        yield dict(scn, style="int")
    for d, c in enumerate(scn["sets"]):
        if c["kind"] != "plain":
            yield dict(scn, sets=scn["sets"][:d] + [dict(c, kind="plain")] + scn["sets"][d + 1:])


def setup(tier):
    import sklearn.covariance  # noqa: loaded once, not in every forked process
