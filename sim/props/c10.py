"""C10: plots show and save exactly what was asked, despite failures."""
import io
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import seams
from ..util import Market, call, pick, short

ID = "C10"
RULE = ("seeded histories of 2-6 plots (frontiers over return/risk/utility ranges with infeasible, unsorted, repeated and non-finite values, default ranges, critical-line, interactive, weights, covariance, "
        "dendrograms) onto given or current axes among several open figures (pyplot, sub-, stand-alone and closed figures), the current figure being switched by another thread in mid-call, with failing solves, "
        "clustering and disk faults and Ctrl-C; each point compared with a new optimiser's portfolio, each saved file with a rendering of the figure, all other figures with their state before; "
        "distinct = event-log digest")
RUNS = {"quick": 700, "thorough": 60000}
BATCH = 12
COMPONENTS = {"real": ["pypfopt.plotting", "optimisers and solvers", "matplotlib (Agg)", "plotly", "Pillow"], "stub": ["cvxpy.Problem.solve wrapper", "clustering wrapper", "raw file layer", "thread that switches the current figure"]}
ASSUMPTIONS = ["parameter values within 0.2 % of the edge of feasibility may or may not yield a point", "matplotlib renders the same figure to the same pixels"]
FATAL = ["solver_error", "user_limit", "infeasible_inaccurate_iterate", "infeasible", "unbounded", "infeasible_inaccurate"]


def generate(rng, i, tier):
    n = pick(rng, [(5, rng.randint(2, 5)), (1, rng.randint(6, 9))])
    rate = rng.choice([0, 0.4, 0.7])
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = pick(rng, [(1.6, "newfig"), (1, "current"), (0.4, "close"), (3, "ef"), (1.2, "cla"), (1, "weights"), (1, "cov"), (0.8, "dendrogram"), (0.35, "interactive")])
        op = {"op": k}
        if k == "newfig":
            op["kind"] = rng.choice(["figure", "subplots", "two", "subfigure", "standalone", "polar"])
        elif k in ("current", "close"):
            op["fig"] = rng.randrange(6)
        else:
            op.update(ax=rng.choice([None, rng.randrange(8), rng.randrange(8)]), faults=[], seed=rng.randrange(10**6))
            if rng.random() < 0.45 and k != "interactive":
                op["file"] = rng.choice(["abs", "abs", "rel", "noext"])
                op["dpi"] = rng.choice([20, 25, 40])
            if rng.random() < 0.3:
                op["switch"] = {"n": int(10 ** rng.uniform(0, 2.3)), "fig": rng.randrange(6)}
            if k in ("ef", "interactive"):
                op["param"] = rng.choice(["return", "return", "risk", "utility"])
                op["range"] = pick(rng, [(2, "default"), (3, "linspace"), (3, "wild"), (1, "list")])
                op["values"] = rng.randint(1, 7)
                op["reuse"] = rng.random() < 0.3
                op["extra"] = rng.choice([None, None, "cap", "l2", "short"])
            if k in ("ef", "cla", "interactive"):
                op["assets"] = rng.random() < 0.7
                op["tickers"] = rng.random() < 0.4
            if k == "cla":
                op["prior"] = rng.choice([None, None, "min_volatility", "max_sharpe", "frontier"])
                op["points"] = rng.choice([8, 20, 50])
            if k == "cov":
                op["corr"], op["tickers"] = rng.random() < 0.5, rng.random() < 0.7
                op["ax"] = None
            if k == "dendrogram":
                op["prior"], op["tickers"] = rng.choice([None, "single", "ward"]), rng.random() < 0.7
            if k == "weights":
                op["ties"] = rng.random() < 0.3
                op["names"] = pick(rng, [(3, 0), (1, 1), (1, rng.randint(15, 34))])  # 0: the market's assets
            if rng.random() < rate:
                site = "solver" if k in ("ef", "interactive") and rng.random() < 0.75 else "cluster" if k == "dendrogram" and rng.random() < 0.5 else "disk" if "file" in op and rng.random() < 0.8 else "line"
                if site == "solver":
                    for q in sorted({rng.randrange(2 * op["values"] + 2) for _ in range(rng.choice([1, 1, 2, 3]))}):
                        op["faults"].append({"site": "solver", "n": q, "kind": pick(rng, [(8, rng.choice(FATAL)), (0.7, "interrupt_before"), (0.5, "memory"), (1, "optimal_inaccurate")])})
                elif site == "cluster":
                    op["faults"].append({"site": "cluster.linkage", "n": 0, "kind": rng.choice(["value", "memory", "interrupt"])})
                elif site == "disk":
                    s = rng.choice(["open", "write", "write", "close"])
                    op["faults"].append({"site": s, "n": rng.choice([0, 0, 1, 2, 4]) if s == "write" else 0, "frac": rng.choice([0.0, 0.5]),
                                         "kind": {"open": rng.choice(["open_eio", "open_enospc", "open_eacces"]), "close": "close_eio", "write": rng.choice(["enospc", "eio", "short", "eintr", "interrupt"])}[s]})
                else:
                    op["faults"].append({"site": "line", "n": int(10 ** rng.uniform(0, 2.2)), "kind": "interrupt"})
        ops.append(op)
    if not any("ax" in op for op in ops):
        return generate(rng, i, tier)
    return {"n": n, "seed": rng.randrange(10**9), "style": pick(rng, [(5, "str"), (1, "odd"), (1, "int")]), "ops": ops}


# ---------------------------------------------------------------- figures


def axstate(ax):
    return (tuple(np.round(ax.get_position().bounds, 9)), [(ln.get_xdata(orig=True).__repr__(), ln.get_ydata(orig=True).__repr__(), ln.get_label()) for ln in ax.lines],
            [len(c.get_offsets()) for c in ax.collections], len(ax.patches), [t.get_text() for t in ax.texts], len(ax.images), len(ax.artists), ax.get_xlabel(), ax.get_ylabel(), ax.get_title(),
            [(t.get_text(), t.get_rotation()) for t in ax.get_xticklabels()], [(t.get_text(), t.get_rotation()) for t in ax.get_yticklabels()], ax.get_legend() is not None, ax.get_xlim(), ax.get_ylim(),
            ax.xaxis_inverted(), ax.yaxis_inverted())


def figstate(fig):
    p = fig.subplotpars
    return [(p.left, p.right, p.top, p.bottom, p.wspace, p.hspace), tuple(fig.get_size_inches()), fig.dpi, repr(fig.get_layout_engine()), [(id(a), axstate(a)) for a in fig.get_axes()]]


class Desk:
    """The figures a session has open."""

    def __init__(self):
        self.figs = []  # top-level figures, in order of creation
        self.axes = []  # axes a caller can name

    def new(self, kind):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure

        if kind == "figure":
            fig, axs = plt.figure(), []
        elif kind == "subplots":
            fig, ax = plt.subplots()
            axs = [ax]
        elif kind == "polar":
            fig = plt.figure()
            axs = [fig.add_subplot(1, 2, 1)]
        elif kind == "two":
            fig, a = plt.subplots(1, 2)
            axs = list(a)
        elif kind == "subfigure":
            fig = plt.figure()
            a, b = fig.subfigures(1, 2)
            axs = [a.subplots(), b.subplots()]
        else:
            from matplotlib.backends.backend_agg import FigureCanvasAgg

            fig = Figure()
            FigureCanvasAgg(fig)
            axs = [fig.subplots()]
        self.figs.append(fig)
        self.axes += axs

    def adopt(self):
        """Figures the library itself opened."""
        import matplotlib.pyplot as plt

        for num in plt.get_fignums():
            f = plt._pylab_helpers.Gcf.figs[num].canvas.figure
            if not any(f is g for g in self.figs):
                self.figs.append(f)
                self.axes += list(f.get_axes())


def current():
    """(figure, axes) that are current, without creating any."""
    import matplotlib.pyplot as plt

    if not plt.get_fignums():
        return None, None
    fig = plt.gcf()
    return fig, (plt.gca() if fig.axes else None)


# ---------------------------------------------------------------- optimisers


def market(scn, op):
    return Market(scn["seed"] + op["seed"], scn["n"], 40, scn["style"])


def new_ef(m, extra):
    import pypfopt
    from pypfopt import objective_functions as of

    e = pypfopt.EfficientFrontier(m.mu_series(), m.cov_frame(), weight_bounds=(-1, 1) if extra == "short" else (0, 1))
    if extra == "cap":
        e.add_constraint(lambda w: w[0] <= 0.6)
    elif extra == "l2":
        e.add_objective(of.L2_reg, gamma=0.2)
    return e


def points(scn, op, m):
    """The values of the plotted range (None: default)."""
    r = np.random.default_rng(scn["seed"] + op["seed"] + 3)
    k = op["values"]
    lo, hi = float(m.mu.min()), float(m.mu.max())
    vols = np.sqrt(np.diag(m.S))
    lo, hi = {"return": (lo, hi * 1.15), "risk": (0.5 * vols.min(), 1.1 * vols.max()), "utility": (0.3, 20.0)}[op["param"]]
    if op["range"] == "default":
        return None
    x = np.linspace(max(lo, 0.001), hi, k)
    if op["range"] == "wild":
        x = [float(v) for v in r.permutation(x)]
        for j in range(len(x)):
            y = r.random()
            if y < 0.12:
                x[j] = float("nan")
            elif y < 0.2:
                x[j] = -abs(x[j])
            elif y < 0.26:
                x[j] = 0.0
            elif y < 0.32 and j:
                x[j] = x[j - 1]
            elif y < 0.36:
                x[j] = 1e6
            elif y < 0.4:
                x[j] = float("inf")
            elif y < 0.45 and op["param"] != "risk":
                x[j] = 5
        return x
    return x if op["range"] == "linspace" else [float(v) for v in x]


METHOD = {"return": "efficient_return", "risk": "efficient_risk", "utility": "max_quadratic_utility"}


def reference(m, op, values):
    """What a new optimiser gives for each value: (risk, return), None, or 'edge' when on the verge of feasibility."""
    with seams.bypass():
        if values is None:
            e = new_ef(m, op["extra"])
            e.min_volatility()
            lo = e.portfolio_performance()[0]
            values = np.linspace(lo, new_ef(m, op["extra"])._max_return() - 0.0001, op["values"])

        def one(v):
            e = new_ef(m, op["extra"])
            try:
                getattr(e, METHOD[op["param"]])(v)
                r, s, _ = e.portfolio_performance()
            except Exception:  # noqa
                return None
            return float(s), float(r)

        out = []
        for v in values:
            p = one(v)
            if op["param"] != "utility" and np.isfinite(v) and 0 < abs(v) < 1e5:
                d = 0.002 * abs(v)
                if (one(v + d) is None) != (p is None) or (one(v - d) is None) != (p is None):
                    p = ("edge", p)
            out.append(p)
        return list(values), out


def is_edge(p):
    return isinstance(p, tuple) and p[0] == "edge"


def close(p, q):
    return abs(p[0] - q[0]) <= 2e-3 * (abs(q[0]) + 0.05) and abs(p[1] - q[1]) <= 2e-3 * (abs(q[1]) + 0.05)


def check_points(ctx, drawn, values, ref, failures):
    """drawn must be the successful points in order, at most `failures` of them missing."""
    i, missing, lenient = 0, 0, 0
    for v, p in zip(values, ref):
        if p is None:
            continue
        if is_edge(p):
            if i < len(drawn) and (p[1] is None or close(drawn[i], p[1])) and not any(q and not is_edge(q) and close(drawn[i], q) for q in ref):
                i += 1
            elif i < len(drawn) and p[1] is not None and close(drawn[i], p[1]):
                i += 1
                lenient += 1
            continue
        if i < len(drawn) and close(drawn[i], p):
            i += 1
        else:
            missing += 1
    ctx.check(i == len(drawn), "wrong-points", lambda: f"drawn {drawn}, but new optimisers give {list(zip(values, ref))}")
    ctx.check(missing <= failures + lenient, "points-missing", lambda: f"{missing} successful values have no point ({failures} solves failed): drawn {drawn}, new optimisers give {list(zip(values, ref))}")
    ctx.count("frontier points compared", len(drawn))
    ctx.count("values without a point", len(values) - len(drawn))


# ---------------------------------------------------------------- runs


def execute(scn, ctx):
    import warnings

    import matplotlib.pyplot as plt

    warnings.simplefilter("ignore")
    d = tempfile.mkdtemp(prefix="simdisk.")
    root0, cwd = seams.DISK_ROOT, os.getcwd()
    seams.DISK_ROOT = d
    os.chdir(d)
    plt.close("all")
    try:
        run(scn, ctx, d)
    finally:
        seams.DISK_ROOT = root0
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        plt.close("all")


def run(scn, ctx, d):
    import matplotlib.pyplot as plt
    import pypfopt
    from pypfopt import plotting

    seams.LIMIT = 2_000_000
    desk = Desk()
    keep = {}
    for k, op in enumerate(scn["ops"]):
        what = op["op"]
        seams.STEPS = 0
        if what == "newfig":
            desk.new(op["kind"])
            continue
        if what in ("current", "close"):
            pp = [f for f in desk.figs if f.number in plt.get_fignums()] if desk.figs and all(hasattr(f, "number") for f in desk.figs) else [f for f in desk.figs if getattr(f, "number", None) in plt.get_fignums()]
            if pp:
                f = pp[op["fig"] % len(pp)]
                plt.figure(f.number) if what == "current" else plt.close(f)
            continue
        ctx.nontrivial = True
        m = market(scn, op)
        ax = desk.axes[op["ax"] % len(desk.axes)] if op["ax"] is not None and desk.axes else None
        file = {"abs": os.path.join(d, f"p{k}.png"), "rel": f"p{k}.png", "noext": os.path.join(d, f"p{k}")}.get(op.get("file"))
        kw = {} if file is None else {"filename": file, "dpi": op["dpi"]}
        on_disk = os.path.join(d, f"p{k}.png")
        if op["seed"] % 3 == 0 and file:
            with open(on_disk, "wb") as fh:
                fh.write(b"older plot")
        if ax is not None:
            kw["ax"] = ax
        # prepare the call
        info = {}
        if what in ("ef", "interactive"):
            vals = points(scn, op, m)
            key = (op["param"], op["extra"])
            # a plot may be repeated on the optimiser used for an earlier plot of the same kind
            if op["reuse"] and key in keep and keep[key][2]:
                e, m = keep[key][:2]
                vals = points(scn, op, m) if vals is not None else points(scn, dict(op, range="linspace"), m)
            else:
                e = new_ef(m, op["extra"])
            keep[key] = (e, m, True)
            info["default"] = vals is None
            info["values"], info["ref"] = reference(m, op, vals)
            akw = dict(ef_param=op["param"], show_assets=op["assets"], show_tickers=op["tickers"], interactive=what == "interactive", **kw)
            akw.update({"points": op["values"]} if vals is None else {"ef_param_range": vals})
            fn = lambda: plotting.plot_efficient_frontier(e, **akw)  # noqa
        elif what == "cla":
            c = pypfopt.CLA(m.mu_series(), m.cov_frame())
            with seams.bypass():
                if op["prior"] == "frontier":
                    c.efficient_frontier(points=15)
                elif op["prior"]:
                    getattr(c, op["prior"])()
                c2 = pypfopt.CLA(m.mu_series(), m.cov_frame())
                info["frontier"] = c2.efficient_frontier(points=15 if op["prior"] == "frontier" else op["points"])
                c3 = pypfopt.CLA(m.mu_series(), m.cov_frame())
                c3.min_volatility() if op["prior"] == "min_volatility" else c3.max_sharpe()
                info["optimal"] = c3.portfolio_performance()
            fn = lambda: plotting.plot_efficient_frontier(c, points=op["points"], show_assets=op["assets"], show_tickers=op["tickers"], **kw)  # noqa
        elif what == "weights":
            r = np.random.default_rng(op["seed"])
            names = [f"W{j}" for j in range(op["names"])] if op["names"] else m.tickers
            w = r.normal(0.3, 0.4, len(names)).round(1 if op["ties"] else 5)
            if op["ties"]:
                w[r.random(len(names)) < 0.3] = 0.0
            wd = {names[j]: float(w[j]) for j in r.permutation(len(names))}
            fn = lambda: plotting.plot_weights(wd, **kw)  # noqa
        elif what == "cov":
            cov = m.cov_frame()
            kw.pop("ax", None)
            fn = lambda: plotting.plot_covariance(cov, plot_correlation=op["corr"], show_tickers=op["tickers"], **kw)  # noqa
        else:
            h = pypfopt.HRPOpt(returns=m.returns)
            with seams.bypass():
                if op["prior"]:
                    h.optimize(linkage_method=op["prior"])
            fn = lambda: plotting.plot_dendrogram(h, show_tickers=op["tickers"], **kw)  # noqa
        desk.adopt()
        cur_fig, cur_ax = current()
        before = {id(f): figstate(f) for f in desk.figs}
        old = {id(a): (len(a.lines), len(a.collections), len(a.patches), len(a.texts), len(a.images)) for f in desk.figs for a in f.get_axes()}
        if "switch" in op and desk.figs:
            left = [op["switch"]["n"]]
            pp = [f for f in desk.figs if getattr(f, "number", None) in plt.get_fignums()]

            def other_thread(code, line):
                left[0] -= 1
                if left[0] == 0 and pp:
                    plt.figure(pp[op["switch"]["fig"] % len(pp)].number)
                    ctx.count("current figure switched by another thread")

            seams.LINE_HOOK = other_thread
        r = call(ctx, op["faults"], fn)
        seams.LINE_HOOK = None
        where = f"op {k} {what} {'ax given' if ax is not None else 'current axes'}"
        ctx.log(k, what, r.ok, type(r.exc).__name__, [f["kind"] for f in r.fired], len(desk.figs))
        ctx.state(what, op.get("param"), op.get("range"), ax is None, op.get("file"), "switch" in op, len(desk.figs), r.ok, tuple(f["site"] + f["kind"] for f in r.fired))
        if what == "interactive":
            judge_interactive(ctx, op, m, r, info, where)
        judge(scn, ctx, op, m, r, ax, info, where, desk, cur_fig, cur_ax, before, old, on_disk, file, locals())
        if what in ("ef", "interactive") and not r.ok:
            keep[key] = (e, m, False)
        desk.adopt()


def solver_failures(r):
    return [f for f in r.fired if f["site"] == "solver" and f["kind"] != "optimal_inaccurate"]


def must_succeed(default, r):
    """Skipped failures do not excuse a plot from being drawn."""
    for f in r.fired:
        if f["site"] == "solver":
            if f["kind"] in ("interrupt_before", "interrupt_after", "memory") or (default and f["n"] < 2):
                return None
        elif f["site"] == "line" or f["site"].startswith("cluster"):
            return False
        elif f["site"] in ("open", "write", "close"):
            return None if f["kind"] in ("short", "eintr") else False
    return True


def judge(scn, ctx, op, m, r, ax, info, where, desk, cur_fig, cur_ax, before, old, on_disk, file, loc):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    what = op["op"]
    need = must_succeed(info.get("default"), r)
    ctx.check(r.ok or need is not True, "plot-prevented", lambda: f"{where} {r!r}; fired {r.fired}; values {info.get('values')}")
    ctx.check(not (r.ok and need is False), "failure-ignored", lambda: f"{where} returned although {r.fired}")
    # which figure may have changed?
    if what == "interactive":
        target = None
    elif r.ok:
        got = r.value
        ctx.check(hasattr(got, "get_position"), "not-axes", lambda: f"{where} returned {got!r}")
        target = got.figure.canvas.figure
        if ax is not None:
            ctx.check(got is ax, "other-axes", lambda: f"{where} drew on {got} instead of the axes it was given")
        elif what == "cov":
            ctx.check(not any(target is f for f in desk.figs), "other-axes", lambda: f"{where} drew over an open figure")
        elif "switch" not in op:
            if cur_ax is not None:
                ctx.check(got is cur_ax, "other-axes", lambda: f"{where} drew on {got}, current axes were {cur_ax}")
            elif cur_fig is not None:
                ctx.check(target is cur_fig, "other-axes", lambda: f"{where} drew on figure {getattr(target, 'number', '?')}, current was {cur_fig.number}")
    else:
        target = ax.figure.canvas.figure if ax is not None else cur_fig
    changed = [f for f in desk.figs if figstate(f) != before[id(f)]]
    if not r.ok and ax is None and "switch" in op and what not in ("cov", "interactive"):
        ctx.check(len(changed) <= 1, "other-figure-changed", lambda: f"{where}: {len(changed)} figures changed")
    else:
        others = [f for f in changed if f is not target or what == "cov"]
        ctx.check(not others, "other-figure-changed", lambda: f"{where} changed figure {desk.figs.index(others[0])}, not the one drawn on: before {short(before[id(others[0])], 900)} after {short(figstate(others[0]), 900)}")
    if target is not None and any(target is f for f in desk.figs) and what != "cov":
        drawn_on = r.value if r.ok else ax if ax is not None else cur_ax
        b4 = {i: s for i, s in before[id(target)][4]}
        for a in target.get_axes():  # other axes of the same figure may move (layout) but not be drawn on
            if a is not drawn_on and id(a) in b4 and drawn_on is not None:
                ctx.check(axstate(a)[1:10] == b4[id(a)][1:10], "other-axes-drawn-on", lambda: f"{where}: {short(axstate(a), 600)}")
    ctx.count("figures compared", len(desk.figs))
    if not r.ok or what == "interactive":
        return
    # contents
    a = r.value
    o = old.get(id(a), (0, 0, 0, 0, 0))
    lines, colls, pats, texts, imgs = a.lines[o[0]:], a.collections[o[1]:], a.patches[o[2]:], a.texts[o[3]:], a.images[o[4]:]
    if what in ("ef", "cla"):
        ctx.check(len(lines) == 1, "lines", lambda: f"{where}: {len(lines)} lines drawn")
        xy = np.column_stack([np.asarray(lines[0].get_xdata(), float), np.asarray(lines[0].get_ydata(), float)])
        if what == "ef":
            check_points(ctx, [tuple(map(float, p)) for p in xy], info["values"], info["ref"], len(solver_failures(r)))
        else:
            fmu, fs, _ = info["frontier"]
            ctx.check(len(xy) == len(fmu) and np.allclose(xy, np.column_stack([fs, fmu]), rtol=1e-6, atol=1e-9), "not-the-frontier", lambda: f"{where}: {xy.tolist()} instead of {list(zip(fs, fmu))}")
            mark = [c for c in colls if c.get_label() == "optimal"] or colls[:1]
            pt = np.asarray(mark[0].get_offsets(), float)
            ctx.check(pt.shape == (1, 2) and np.allclose(pt[0], [info["optimal"][1], info["optimal"][0]], rtol=1e-6, atol=1e-9), "not-the-optimum", lambda: f"{where}: {pt.tolist()} instead of {info['optimal']}")
            ctx.count("frontier points compared", len(xy))
        if op["assets"]:
            sc = np.asarray(colls[-1].get_offsets(), float)
            want = np.column_stack([np.sqrt(np.diag(m.S)), m.mu])
            ctx.check(sc.shape == want.shape and np.allclose(sc, want), "assets", lambda: f"{where}: {sc.tolist()} instead of {want.tolist()}")
            if op["tickers"]:
                lab = [(t.get_text(), tuple(np.round(t.xy, 9))) for t in texts]
                ctx.check(lab == [(str(t), tuple(np.round(p, 9))) for t, p in zip(m.tickers, want)], "asset-labels", lambda: f"{where}: {lab}")
        else:
            ctx.check(len(colls) == (1 if what == "cla" else 0), "assets", lambda: f"{where}: assets drawn although not asked for")
    elif what == "weights":
        wd = loc["wd"]
        labels = [t.get_text() for t in a.get_yticklabels()]
        got = [(lab, float(p.get_width())) for lab, p in zip(labels, pats)]
        vals = [v for _, v in got]
        ctx.check(sorted(got) == sorted((str(t), v) for t, v in wd.items()) and vals == sorted(vals, reverse=True), "weights", lambda: f"{where}: {got} for {wd}")
        ys = [p.get_y() + p.get_height() / 2 for p in pats]
        ctx.check(np.allclose(ys, a.get_yticks()), "weights", lambda: f"{where}: bars at {ys}, labels at {a.get_yticks()}")
    elif what == "cov":
        want = m.S / np.sqrt(np.outer(np.diag(m.S), np.diag(m.S))) if op["corr"] else m.S
        arr = np.asarray(imgs[0].get_array(), float) if imgs else None
        ctx.check(arr is not None and arr.shape == want.shape and np.allclose(arr, want, atol=1e-9), "matrix", lambda: f"{where}: {short(arr)}")
        if op["tickers"]:
            for tl in (a.get_xticklabels(), a.get_yticklabels()):
                ctx.check([t.get_text() for t in tl] == [str(t) for t in m.tickers], "labels", lambda: f"{where}: {[t.get_text() for t in tl]}")
            ctx.check(all(t.get_rotation() == 90 for t in a.get_xticklabels()), "labels-not-rotated", lambda: f"{where}: {[t.get_rotation() for t in a.get_xticklabels()]}")
    else:
        ctx.check(sum(len(c.get_segments()) for c in colls if hasattr(c, "get_segments")) == scn["n"] - 1, "dendrogram", lambda: f"{where}: {colls}")
        if op["tickers"]:
            labels = [t.get_text() for t in a.get_xticklabels()]
            ctx.check(sorted(labels) == sorted(str(t) for t in m.tickers), "labels", lambda: f"{where}: {labels}")
    ctx.count("plots compared")
    # saved file
    if file is not None:
        with seams.bypass():
            import matplotlib.image as mi

            buf = io.BytesIO()
            target.savefig(buf, dpi=op["dpi"], format="png")
            buf.seek(0)
            want = mi.imread(buf)
            try:
                got = mi.imread(on_disk)
            except Exception as e:  # noqa
                ctx.fail("not-saved", f"{where} returned, but the saved file cannot be read: {e!r}; fired {r.fired}")
            ctx.check(got.shape == want.shape and np.array_equal(got, want), "saved-something-else", lambda: f"{where}: the file differs from the figure drawn ({got.shape}, {want.shape})")
        ctx.count("saved files compared")
    else:
        ctx.check(not os.path.exists(on_disk), "saved-unasked", lambda: f"{where}: wrote {on_disk}")
    # layout: laying the drawn figure out once more hardly moves anything
    if any(x.get_aspect() != "auto" or x.images or x.get_label() == "<colorbar>" for x in target.get_axes()) or target.subfigs:
        return  # laying such figures out twice is not the same as once
    with seams.bypass():
        pos = [np.array(x.get_position().bounds) for x in target.get_axes()]
        target.tight_layout()
        move = max((float(np.abs(np.array(x.get_position().bounds) - p).max()) for x, p in zip(target.get_axes(), pos)), default=0.0)
    ctx.check(move < 0.035, "not-laid-out", lambda: f"{where}: axes move by {move} when laid out")
    ctx.stats["max layout move 1e-4"] = max(ctx.stats["max layout move 1e-4"], int(move * 1e4))


def judge_interactive(ctx, op, m, r, info, where):
    if not r.ok:
        return
    tr = list(r.value.data)
    line = [t for t in tr if t.mode == "lines"]
    ctx.check(len(line) == 1, "lines", lambda: f"{where}: {len(line)} lines")
    drawn = [(float(x), float(y)) for x, y in zip(line[0].x, line[0].y)]
    check_points(ctx, drawn, info["values"], info["ref"], len(solver_failures(r)))
    if op["assets"]:
        mk = [t for t in tr if t.mode == "markers"]
        ctx.check(len(mk) == 1 and np.allclose(np.column_stack([mk[0].x, mk[0].y]).astype(float), np.column_stack([np.sqrt(np.diag(m.S)), m.mu])), "assets", lambda: f"{where}: {mk}")
    ctx.count("interactive plots compared")


def shrink(scn):
    if scn["n"] > 2:
        yield dict(scn, n=scn["n"] - 1)
    if scn["style"] != "str":
        yield dict(scn, style="str")
    for i, op in enumerate(scn["ops"]):
        for key in ("switch", "file"):
            if key in op:
                o = {k: v for k, v in op.items() if k != key}
                if key == "file" and any(f["site"] in ("open", "write", "close") for f in op["faults"]):
                    continue
                yield dict(scn, ops=scn["ops"][:i] + [o] + scn["ops"][i + 1:])
        if op.get("values", 1) > 1:
            yield dict(scn, ops=scn["ops"][:i] + [dict(op, values=op["values"] - 1)] + scn["ops"][i + 1:])


def setup(tier):
    import plotly.graph_objects  # noqa
    import plotly.subplots  # noqa
    import PIL.PngImagePlugin  # noqa
