"""C06: a save that returns has written exactly the clean weights."""
import ast
import csv
import io
import json
import os
import resource
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import seams
from ..util import Market, call, pick, short, tickers

ID = "C06"
RULE = ("seeded histories of saves (csv, json, txt, odd names, default name, relative and absolute) of several optimisers into a simulated disk holding older, longer, shorter or garbage files, "
        "with failures of open, the n-th write (torn), close, short writes and interrupted calls, refusals and retries; files are parsed back and compared; distinct = event-log digest")
RUNS = {"quick": 5000, "thorough": 200000}
BATCH = 60
COMPONENTS = {"real": ["pypfopt", "pandas.to_csv", "json", "Python buffered I/O", "files in a scratch directory"], "stub": ["raw file layer (write/close/open faults)", "kernel file size limit and /dev/full are real"]}
ASSUMPTIONS = ["durability against power loss is not promised by the library (no fsync); a save that raises may leave a torn file"]


def generate(rng, i, tier):
    n = pick(rng, [(4, rng.randint(1, 8)), (2, rng.randint(30, 120)), (1, rng.randint(300, 700))])
    names = [rng.choice(["w", "weights", "my.port", "a b", "ünï", "W.CSV", "x.json"]) + "." + rng.choice(["csv", "json", "txt", "CSV", "Json"]) for _ in range(rng.randint(1, 2))]
    ops = []
    rate = rng.choice([0, 0.3, 0.6])
    for _ in range(rng.randint(3, 9)):
        k = pick(rng, [(7, "save"), (1.2, "setw"), (0.7, "other"), (0.8, "refuse"), (0.5, "garbage"), (0.3, "missing_dir"), (0.2, "dir")])
        op = {"op": k}
        if k == "save":
            op["file"] = rng.randrange(len(names))
            op["how"] = rng.choice(["abs", "abs", "rel", "default"])
            op["faults"] = []
            for _ in range(2 if rng.random() < 0.2 else 1):
                if rng.random() < rate:
                    site = pick(rng, [(2, "open"), (5, "write"), (2, "close")])
                    kind = {"open": rng.choice(["open_eio", "open_enospc", "open_eacces"]), "close": "close_eio",
                            "write": pick(rng, [(3, "enospc"), (2, "eio"), (3, "short"), (2, "eintr"), (1, "interrupt")])}[site]
                    op["faults"].append({"site": site, "n": rng.choice([0, 0, 0, 1, 2, 5]) if site == "write" else 0, "kind": kind, "frac": rng.choice([0.0, 0.3, 0.9])})
            if rng.random() < rate * 0.25:
                op["faults"] = [{"site": rng.choice(["rename", "fsync"]), "n": 0, "kind": "meta_eio"}]
            x = rng.random()
            if x < rate * 0.25:  # faults of the operating system itself, whatever layer the library writes through
                op["kernel"], op["faults"] = pick(rng, [(3, {"kind": "file size limit", "at": rng.choice([0, 1, 40, 300, 4096, 9000])}), (2, {"kind": "device full"})]), []
        elif k in ("setw", "other"):
            op["seed"] = rng.randrange(10**6)
        elif k == "refuse":
            op["ext"] = rng.choice(["xlsx", "pickle", "", "jsonx", "CSVV", "tsv", "png", "docx", "cs"])
            op["content"] = rng.choice([None, "precious"])
        elif k == "garbage":
            op["file"] = rng.randrange(len(names))
            op["size"] = rng.choice([0, 5, 400, 60000])
        ops.append(op)
    return {"n": n, "style": pick(rng, [(4, "plain"), (2, "odd"), (1, "int")]), "cls": rng.choice(["base", "base", "EF", "HRP", "CLA"]), "seed": rng.randrange(10**9), "names": names,
            "empty_first": rng.random() < 0.15, "ops": ops}


ODD = ["A,B", 'x"y', "sp ace", "ünï", "O'Neil", "tab\there", "#1", "None", "1.5", "a:b", "{z}", "back\\slash", " lead", "trail ", "new\nline", "NaN", "1e5", "%s", "semi;colon", "emoji\U0001f4c8", "nul\u2028sep", "TRUE", "" ]


def names_for(scn):
    n = scn["n"]
    if scn["style"] == "int":
        return list(range(n))
    base = [f"T{(i * 7919) % 1000:03d}x{i}" for i in range(n)]
    if scn["style"] == "odd":
        for i in range(0, n, 2):
            base[i] = ODD[(i // 2 + scn["seed"]) % len(ODD)] + ("" if n < 10 else str(i))
    return base


def weights_for(seed, n):
    r = np.random.default_rng(seed)
    w = r.dirichlet(np.ones(n) * 0.7) if n > 1 else np.ones(1)
    if seed % 3 == 0:
        w = w - 2 * (r.random(n) < 0.2) * w
    if n > 3:
        w[r.integers(n)] = 0
        w[r.integers(n)] = -3e-5
    return w


def make(scn, seed, with_weights=True):
    """(optimiser, list of tickers, weights held)"""
    names = names_for(scn)
    n = len(names)
    cls = scn["cls"] if n <= (8 if scn["cls"] == "CLA" else 60) else "base"
    if n < 2:
        cls = "base"
    if cls == "base":
        from pypfopt.base_optimizer import BaseOptimizer

        o = BaseOptimizer(n, list(names))
    elif cls == "HRP":
        from pypfopt import HRPOpt

        m = Market(seed, n, 40, "int")
        o = HRPOpt(pd.DataFrame(m.R, columns=names))
    else:
        m = Market(seed, n, 40, "int")
        from pypfopt import CLA, EfficientFrontier

        C = EfficientFrontier if cls == "EF" else CLA
        o = C(pd.Series(m.mu, index=names), pd.DataFrame(m.S, index=names, columns=names))
    names = list(o.tickers)
    return o, names, give_weights(o, names, seed) if with_weights else None


def give_weights(o, names, seed):
    """Make the optimiser hold some weights; returns them."""
    if type(o).__name__ == "CLA":
        return np.array(list((o.min_volatility() if seed % 2 else o.max_sharpe()).values()), float)
    w = weights_for(seed, len(names))
    o.set_weights(dict(zip(names, w.tolist())))
    return w


def expected(w):
    c = w.copy()
    c[np.abs(c) < 1e-4] = 0
    return np.round(c, 5)


def parse(path, ext):
    """What a reader finds in the file: list of (ticker text, value)."""
    with seams._real_open(path, newline="", encoding="utf-8") as f:
        data = f.read()
    if ext == "csv":
        return [(r[0], float(r[1])) for r in csv.reader(io.StringIO(data)) if r or len(r)]
    if ext == "json":
        pairs = json.loads(data, object_pairs_hook=list)
        return [(k, float(v)) for k, v in pairs]
    d = ast.literal_eval(data)
    if not isinstance(d, dict):
        raise ValueError("not a dict")
    return [(str(k), float(v)) for k, v in d.items()]


def execute(scn, ctx):
    root = tempfile.mkdtemp(prefix="simdisk.")
    cwd = os.getcwd()
    seams.DISK_ROOT = os.path.realpath(root)
    try:
        os.chdir(root)
        run(scn, ctx, os.path.realpath(root))
    finally:
        os.chdir(cwd)
        seams.DISK_ROOT = None
        shutil.rmtree(root, ignore_errors=True)


def state_of(o):
    w = getattr(o, "weights", None)
    return (None if w is None else np.asarray(w, float).tobytes(), list(o.tickers), o.n_assets)


def listing(root):
    return sorted(os.listdir(root))


def slurp(path):
    if not os.path.isfile(path):
        return None
    with seams._real_open(path, "rb") as f:
        return f.read()


def run(scn, ctx, root):
    o, names, held = make(scn, scn["seed"], not scn["empty_first"])
    for k, op in enumerate(scn["ops"]):
        if op["op"] == "setw":
            held = give_weights(o, names, op["seed"])
            ctx.log(k, "setw")
        elif op["op"] == "other":
            o, names, held = make(scn, op["seed"])
            ctx.log(k, "other")
        elif op["op"] == "garbage":
            with seams._real_open(os.path.join(root, scn["names"][op["file"]]), "wb") as f:
                f.write(bytes((i * 131) % 251 for i in range(op["size"])))
        elif op["op"] == "refuse":
            name = "refused" + ("." + op["ext"] if op["ext"] else "")
            refuse(o, ctx, root, name, op["content"], k, scn)
        elif op["op"] in ("missing_dir", "dir"):
            name = os.path.join(root, "no_such_dir", "w.csv") if op["op"] == "missing_dir" else os.path.join(root, "adir.json")
            if op["op"] == "dir":
                os.makedirs(name, exist_ok=True)
            before = state_of(o)
            r = call(ctx, [], o.save_weights_to_file, name)
            ctx.check(not r.ok, "failed-save-returned", f"saving to {op['op']} returned")
            ctx.check(state_of(o) == before, "optimiser-changed", "a failed save changed the optimiser")
            ctx.log(k, op["op"], r.ok)
        else:
            save(o, names, held, op, scn, ctx, root, k)


def refuse(o, ctx, root, name, content, k, scn):
    path = os.path.join(root, name)
    if content is not None:
        with seams._real_open(path, "w") as f:
            f.write(content)
    elif os.path.exists(path):
        os.unlink(path)
    before, files = (state_of(o), slurp(path)), listing(root)
    r = call(ctx, [], o.save_weights_to_file, path)
    ctx.log(k, "refuse", name, r.ok)
    ctx.check(not r.ok, "unsupported-extension-accepted", lambda: f"{name} was accepted")
    ctx.check((state_of(o), slurp(path)) == before, "refused-save-touched-file", lambda: f"refused save to {name} changed the file or the optimiser")
    ctx.check(listing(root) == files, "refused-save-touched-file", lambda: f"refused save to {name} left {listing(root)}, before {files}")
    ctx.probe("refused")


def descriptors(root):
    out = []
    for d in os.listdir("/proc/self/fd"):
        try:
            name = os.readlink("/proc/self/fd/" + d)
        except OSError:
            continue
        if name.startswith(root):
            out.append((int(d), name))
    return sorted(out)


class size_limit:
    """The kernel cuts a write short at the limit and refuses the next one (EFBIG)."""

    def __init__(self, at):
        self.at = at

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.at, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def full(o, names, held, op, ctx, path, arg, before, k):
    """The name is a link to a device that is always full."""
    if os.path.lexists(path):
        os.unlink(path)
    os.symlink("/dev/full", path)
    try:
        r = call(ctx, [], o.save_weights_to_file, *arg)
        ctx.log(k, "device full", r.ok)
        ctx.count("fault:kernel:device full")
        ctx.nontrivial = True
        ctx.check(state_of(o) == before, "optimiser-changed", "saving changed the optimiser")
        if r.ok:  # only a save that replaced the link can have succeeded
            ctx.check(not os.path.islink(path), "failed-save-returned", "the save returned although the device is full")
            want = [(str(t), float(v)) for t, v in zip(names, expected(held))]
            ctx.check(parse(path, path.split(".")[-1].lower()) == want, "wrong-content", lambda: short(slurp(path)))
        else:
            ctx.check(held is None or isinstance(r.exc, OSError), "save-raises", lambda: repr(r))
    finally:
        os.unlink(path)


def save(o, names, held, op, scn, ctx, root, k):
    name = scn["names"][op["file"]]
    if op["how"] == "default":
        name = "weights.csv"
    path = os.path.join(root, name)
    ext = name.split(".")[-1].lower()
    arg = {"abs": [path], "rel": [name], "default": []}[op["how"]]
    before, old, files = state_of(o), slurp(path), listing(root)
    with seams.bypass():
        try:
            clean = list(o.clean_weights().items())
        except Exception:  # noqa
            clean = None
    kernel = op.get("kernel")
    if kernel and kernel["kind"] == "device full":
        full(o, names, held, op, ctx, path, arg, before, k)
        return
    fds = descriptors(root)
    if kernel:
        with size_limit(kernel["at"]):
            r = call(ctx, [], o.save_weights_to_file, *arg)
        if held is not None and not r.ok:
            ctx.count("fault:kernel:file size limit")
            ctx.check(isinstance(r.exc, OSError) and kernel["at"] < 60 * len(names) + 60, "save-raises", lambda: repr(r))
            ctx.check(state_of(o) == before, "optimiser-changed", "saving changed the optimiser")
            ctx.log(k, "size limit", kernel["at"], ext)
            return
    else:
        r = call(ctx, op["faults"], o.save_weights_to_file, *arg)
    fatal = [f for f in r.fired if f["kind"] not in seams.FILE_BENIGN + ["meta_eio"]]
    ctx.log(k, "save", ext, op["how"], r.ok, None if r.ok else type(r.exc).__name__, [f["kind"] for f in r.fired])
    ctx.state("save", ext, op["how"], r.ok, [f["kind"] for f in r.fired], old is not None, held is None, scn["style"])
    ctx.nontrivial = True
    ctx.check(state_of(o) == before, "optimiser-changed", "saving changed the optimiser")
    if held is None:
        ctx.check(not r.ok, "saved-without-weights", "")
        ctx.check(slurp(path) == old and listing(root) == files, "refused-save-touched-file", "a save without weights touched the file")
        return
    if not r.ok:
        ctx.check(r.fired, "save-raises", lambda: repr(r))
        ctx.check(fatal, "benign-fault-raises", lambda: f"{op['faults']}: {r!r}")
        ctx.probe("failed save")
        return
    ctx.check(not fatal, "failed-save-returned", lambda: f"the save returned although {fatal} failed")
    ctx.check(not seams.open_handles(), "handle-left-open", lambda: f"{len(seams.open_handles())} handles still open")
    ctx.check(descriptors(root) == fds, "handle-left-open", lambda: f"descriptors {descriptors(root)}, before {fds}")
    want = [(str(t), float(v)) for t, v in zip(names, expected(held))]
    ctx.check([(str(t), float(v)) for t, v in clean] == want, "clean-weights", "clean_weights differ from the weights held")
    try:
        got = parse(path, ext)
    except Exception as e:  # noqa
        ctx.fail("unreadable", f"{name}: {type(e).__name__}: {e}; {short(slurp(path))}")
    ctx.check(got == want, "wrong-content", lambda: f"{name} holds {short(got)} instead of {short(want)} (faults {op['faults']})")
    if old is not None:
        ctx.probe("overwrote a file")
    if r.fired:
        ctx.probe("saved despite benign faults")
    extra = set(listing(root)) - set(files) - {name}
    ctx.check(not extra, "stray-file", lambda: f"the save left {extra} behind")
