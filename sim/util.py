"""Data generation, guarded calls, fingerprints."""
import contextlib
import hashlib
import pickle
import sys

import numpy as np
import pandas as pd

from . import core, seams

NAMES = ["GOOG", "AAPL", "FB", "BABA", "AMZN", "GE", "AMD", "WMT", "BAC", "GM", "T", "UAA", "SHLD", "XOM", "RRC", "BBY", "MA", "PFE", "JPM", "SBUX"]


def tickers(style, n, seed):
    r = np.random.default_rng(seed)
    if style == "int":
        return list(range(n))
    names = list(r.permutation(NAMES)[:n])
    names = [str(x) for x in names]
    if style == "odd":
        extra = ['A,B', 'x"y', "sp ace", "ünï", "O'Neil", "tab\there"]
        for i in range(n):
            if i % 2 == 0:
                names[i] = extra[(i // 2 + int(r.integers(6))) % 6] + str(i)
    if style == "sorted":
        names.sort()
    return names


class Market:
    """n assets, T periods of returns with a factor structure; everything derived from one seed."""

    def __init__(self, seed, n, T, style="str", mean=0.0006, tail=False):
        r = np.random.default_rng(seed)
        self.n, self.T = n, T
        beta = r.uniform(0.5, 1.5, n)
        f = r.normal(0, 0.009, T)
        idio = r.uniform(0.006, 0.02, n)
        eps = r.standard_t(5, (T, n)) if tail else r.normal(0, 1, (T, n))
        drift = r.uniform(-0.5, 2.0, n) * mean
        drift[int(r.integers(n))] = 2.2 * mean
        X = np.outer(f, beta) + eps * idio
        X = X - X.mean(axis=0) + drift
        self.tickers = tickers(style, n, seed + 1)
        self.dates = pd.bdate_range("2020-01-01", periods=T + 1)
        self.R = np.round(X, 8)
        self.returns = pd.DataFrame(self.R, columns=self.tickers, index=self.dates[1:])
        p0 = r.uniform(8, 400, n)
        self.prices = pd.DataFrame(np.vstack([p0, p0 * np.cumprod(1 + self.R, axis=0)]), columns=self.tickers, index=self.dates)
        self.mu = np.round(self.R.mean(axis=0) * 252, 6)
        self.S = np.round(np.cov(self.R.T) * 252 + 1e-4 * np.eye(n), 9)
        self.S = (self.S + self.S.T) / 2

    def mu_series(self):
        return pd.Series(self.mu.copy(), index=list(self.tickers))

    def cov_frame(self):
        return pd.DataFrame(self.S.copy(), index=list(self.tickers), columns=list(self.tickers))


class Outcome:
    __slots__ = ("ok", "value", "exc", "fired", "out", "trace", "residual")

    def __repr__(self):
        return "ok" if self.ok else f"raised {type(self.exc).__name__}: {self.exc}"


@contextlib.contextmanager
def captured_stdout():
    old = sys.stdout
    sys.stdout = seams.SimStdout()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def interrupt_at(f, inner=None):
    """Ctrl-C delivered at the f['n']-th source line the library executes in this operation."""
    left = [f["n"]]
    after = f.get("after")  # only lines executed after the first crossing of this seam count

    def hook(code, line):
        if inner is not None:
            inner(code, line)
        if after and not any(site == after for site, _ in seams.TRACE):
            return
        left[0] -= 1
        if left[0] == -1:
            seams.FIRED.append(f)
            raise core.SimInterrupt()

    return hook


def call(ctx, faults, fn, *a, **k):
    """Run one library operation with its faults armed; every exception it raises is an outcome."""
    o = Outcome()
    with captured_stdout() as out:
        s0 = seams.STEPS
        seams.begin(faults)
        hook0 = seams.LINE_HOOK
        line = [f for f in faults or () if f["site"] == "line"]
        if line:
            seams.LINE_HOOK = interrupt_at(line[0], hook0)
        try:
            o.value = fn(*a, **k)
            o.ok, o.exc = True, None
        except seams.StepLimit:
            raise
        except BaseException as e:
            if not isinstance(e, (Exception, KeyboardInterrupt)) and type(e).__name__ != "PanicException":
                raise
            o.ok, o.exc, o.value = False, e, None  # a Rust solver that aborts surfaces as PanicException
        finally:
            o.trace = list(seams.TRACE)
            o.residual = max(seams.RESIDUAL, default=0.0)
            seams.LINE_HOOK = hook0
            o.fired = seams.end()
    o.out = out.getvalue()
    ctx.stats["steps"] += seams.STEPS - s0
    for f in o.fired:
        ctx.count(f"fault:{f['site']}:{f['kind']}")
    return o


def call_in_thread(ctx, faults, fn, *a, **k):
    """call() for an operation of a simulated thread: no process-wide seams are touched."""
    o = Outcome()
    o.out, o.trace, o.residual = "", [], 0.0
    seams.begin_thread(faults)
    try:
        o.value = fn(*a, **k)
        o.ok, o.exc = True, None
    except BaseException as e:
        if not isinstance(e, (Exception, KeyboardInterrupt)) and type(e).__name__ != "PanicException":
            raise
        o.ok, o.exc, o.value = False, e, None
    finally:
        o.fired = seams.end_thread()
    for f in o.fired:
        ctx.count(f"fault:{f['site']}:{f['kind']}")
    return o


def fingerprint(obj):
    """Everything a caller could notice about an object it owns: values, labels, names, order, types."""
    h = hashlib.md5()

    def put(x):
        if isinstance(x, pd.DataFrame):
            h.update(b"DF%d,%d" % x.shape)
            put_index(x.index)
            put_index(x.columns)
            for i in range(x.shape[1]):
                put_arr(x.iloc[:, i].to_numpy())
            h.update(repr(sorted(x.attrs.items())).encode())
        elif isinstance(x, pd.Series):
            h.update(b"SE" + repr(x.name).encode())
            put_index(x.index)
            put_arr(x.to_numpy())
        elif isinstance(x, np.ndarray):
            h.update(b"ND" + repr(x.shape).encode() + str(x.flags.writeable).encode())
            put_arr(x)
        elif isinstance(x, dict):
            h.update(type(x).__name__.encode() + b"%d" % len(x))
            for k, v in x.items():
                put(k)
                put(v)
        elif isinstance(x, (list, tuple)):
            h.update(type(x).__name__.encode() + b"%d" % len(x))
            for v in x:
                put(v)
        elif isinstance(x, (pd.Index,)):
            put_index(x)
        elif callable(x):
            h.update(b"callable")
        else:
            h.update(repr(x).encode())

    def put_arr(a):
        h.update(str(a.dtype).encode())
        if a.dtype == object:
            for v in a.ravel():
                put(v)
        else:
            h.update(np.ascontiguousarray(a).tobytes())

    def put_index(ix):
        h.update(b"IX" + str(ix.dtype).encode() + repr(list(ix.names)).encode())
        if ix.dtype == object:
            for v in ix:
                h.update(repr(v).encode())
        else:
            h.update(np.asarray(ix).tobytes())

    put(obj)
    return h.digest()


def same(a, b, tol=0.0):
    """Structural equality of results, floats within tol (0 = identical)."""
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        return (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and list(a.index) == list(b.index) and list(a.columns) == list(b.columns)
                and num_same(a.to_numpy(), b.to_numpy(), tol))
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        return isinstance(a, pd.Series) and isinstance(b, pd.Series) and list(a.index) == list(b.index) and num_same(a.to_numpy(), b.to_numpy(), tol)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return num_same(np.asarray(a), np.asarray(b), tol)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating, int)):
        return num_same(np.asarray(a), np.asarray(b), tol)
    return a == b


def num_same(a, b, tol):
    if a.shape != b.shape:
        return False
    try:
        a, b = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return a.tolist() == b.tolist()
    if tol == 0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def pick(rng, pairs):
    """Weighted choice from [(weight, value), ...]."""
    t = sum(w for w, _ in pairs)
    x = rng.random() * t
    for w, v in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][1]


def short(x, n=300):
    s = repr(x)
    return s if len(s) < n else s[:n] + "..."
