"""Deterministic simulation core: seeded runs, isolated batches, minimiser, replay files, evidence.

One integer (VERIF_SEED) decides everything.  A run is a *scenario*: plain JSON data (configuration,
operations, the faults attached to each operation and, for concurrent runs, the schedule) generated from
hash(VERIF_SEED, property, run index).  Executing a scenario is a pure function of that data and of the code
in /repo.  Runs are executed in batches; each batch is a forked child of one pristine process, so that a
batch never sees what another left behind, while runs inside a batch do (cross-run leaks are part of what
is searched for and are replayed as the list of scenarios that led to the violation).
"""
import collections
import gc
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")  # SIM_REPO: only for trying planted bugs in scratch copies
LIB = REPO + "/pypfopt"


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail = cls, str(detail)[:2000]


class HarnessError(Exception):
    pass


class StepLimit(BaseException):
    """Raised inside library code by the step counter: no progress within the step budget."""


class SimInterrupt(KeyboardInterrupt):
    """Injected interruption (Ctrl-C) at a seam."""


def derive(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


def canon(x):
    """Canonical, digest-stable form of a logged value."""
    import numpy as np

    if isinstance(x, (bool, str, int)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return "%.7g" % (float(x) + 0.0)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, BaseException):
        return type(x).__name__
    if hasattr(x, "to_dict"):
        return canon(x.to_dict())
    return type(x).__name__


class Ctx:
    """What one run observes: event log, fault/probe counters, states reached, known findings seen."""

    def __init__(self, prop, findings=()):
        self.prop = prop
        self.findings = set(findings)
        self.events = 0
        self.hash = hashlib.sha256()
        self.stats = collections.Counter()
        self.states = set()
        self.known_seen = {}
        self.nontrivial = False
        self.trace = None  # schedule trace of a concurrent run
        self.keep_log = False
        self.full_log = []

    def log(self, *event):
        c = canon(list(event))
        s = json.dumps(c)
        self.hash.update(s.encode())
        self.events += 1
        if self.keep_log:
            self.full_log.append(s)

    def count(self, key, n=1):
        self.stats[key] += n

    def probe(self, name):
        self.stats["probe:" + name] += 1

    def state(self, *key):
        self.states.add(hashlib.md5(json.dumps(canon(list(key))).encode()).hexdigest()[:12])

    def fail(self, cls, detail):
        raise Violation(cls, detail)

    def check(self, cond, cls, detail=""):
        if not cond:
            raise Violation(cls, detail() if callable(detail) else detail)

    def known(self, fid, cls, detail):
        """A violation with the signature of a recorded finding: tolerated only if the file lists it."""
        if fid in self.findings:
            self.known_seen[fid] = detail
        else:
            raise Violation(cls, detail)

    def digest(self):
        return self.hash.hexdigest()[:24]


def load_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].strip().split(" ", 2)
                kv = dict(x.split("=", 1) for x in parts[:2])
                if kv.get("property") == prop:
                    out[kv["id"]] = parts[2]
    return out


def in_library(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, scn, findings, keep_log=False):
    """Execute one scenario in this process.  Returns a result dict."""
    from . import seams

    ctx = Ctx(mod.ID, findings)
    ctx.keep_log = keep_log
    viol = None
    seams.reset()
    try:
        mod.execute(scn, ctx)
    except Violation as v:
        viol = (v.cls, v.detail)
    except StepLimit:
        viol = ("no-progress", "step budget exhausted inside the library")
    except HarnessError:
        raise
    except Exception as e:
        if in_library(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            viol = ("unexpected-exception", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.name}")
        else:
            raise
    finally:
        seams.reset()
    if viol:
        ctx.log("VIOLATION", viol[0])
    return {
        "viol": viol, "digest": ctx.digest(), "events": ctx.events, "stats": dict(ctx.stats), "states": ctx.states,
        "known": ctx.known_seen, "nontrivial": ctx.nontrivial, "trace": ctx.trace, "log": ctx.full_log,
    }


# ------------------------------------------------------------------ isolated execution

class Zygote:
    """A pristine forked process that executes functions in forked grandchildren on request, so that a run can
    ask 'what would this give as the first thing a fresh process does?'."""

    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                end_with_parent()
                os.close(self.w)
                os.close(self.r)
                self._serve(os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid = pid
        self.fin, self.fout = os.fdopen(self.w, "wb"), os.fdopen(self.r, "rb")

    @staticmethod
    def _serve(fin, fout):
        while True:
            try:
                modname, fname, args = pickle.load(fin)
            except EOFError:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                gc.disable()
                os.close(r)
                end_with_parent()
                try:
                    res = ("ok", getattr(sys.modules[modname], fname)(*args))
                except BaseException as e:  # noqa
                    res = ("err", "".join(traceback.format_exception(e)))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            fout.write(len(data).to_bytes(8, "big") + data)
            fout.flush()

    def call(self, modname, fname, *args):
        pickle.dump((modname, fname, args), self.fin)
        self.fin.flush()
        n = int.from_bytes(self.fout.read(8), "big")
        data = self.fout.read(n)
        if not data:
            raise HarnessError("isolated call died")
        st, val = pickle.loads(data)
        if st == "err":
            raise HarnessError("isolated call failed: " + val)
        return val

    def close(self):
        self.fin.close()
        self.fout.close()
        os.waitpid(self.pid, 0)


def end_with_parent():
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


ZYGOTE = None


def isolated(modname, fname, *args):
    """Run sys.modules[modname].fname(*args) in a fork of the pristine process."""
    global ZYGOTE
    if ZYGOTE is None:
        raise HarnessError("no zygote")
    return ZYGOTE.call(modname, fname, *args)


def child_setup(mod):
    global ZYGOTE
    import warnings

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    if os.environ.get("SIM_STDERR"):
        import faulthandler

        faulthandler.dump_traceback_later(60, exit=False)
    gc.collect()
    gc.freeze()
    if getattr(mod, "ZYGOTE", False):
        ZYGOTE = Zygote()


def fork_batch(mod, scns, findings, keep_log=False):
    """Fork a child that executes the scenarios in order, stopping after the first violation.  Returns (pid, fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            end_with_parent()
            child_setup(mod)
            out = []
            try:
                for scn in scns:
                    res = run_one(mod, scn, findings, keep_log)
                    out.append(res)
                    if res["viol"]:
                        break
                payload = ("ok", out)
            except BaseException as e:  # noqa
                payload = ("err", "".join(traceback.format_exception(e)) + "\nscenario: " + json.dumps(scns[len(out)])[:3000], out)
            with os.fdopen(w, "wb") as f:
                pickle.dump(payload, f)
            if ZYGOTE is not None:
                ZYGOTE.close()
        except BaseException:  # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, fd, timeout=300):
    """Wait for one batch child."""
    import select

    data = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
            return ("timeout", "batch exceeded its wall-clock limit", [])
        rd, _, _ = select.select([fd], [], [], min(left, 5))
        if rd:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                break
            data += chunk
    os.close(fd)
    os.waitpid(pid, 0)
    if not data:
        return ("err", "batch child died without a result", [])
    return pickle.loads(data)


def run_batch(mod, scns, findings, timeout=300, keep_log=False):
    pid, fd = fork_batch(mod, scns, findings, keep_log)
    return collect(pid, fd, timeout)


def viol_of(res):
    """(class, detail, trace) of the violation that ends a batch result, or None."""
    if res[0] == "ok" and res[1] and res[1][-1]["viol"]:
        r = res[1][-1]
        return r["viol"][0], r["viol"][1], r["trace"]
    return None


# ------------------------------------------------------------------ minimiser

def ddmin(items, test, deadline):
    """Classic ddmin over a list; test(list) -> bool (still fails)."""
    n = 2
    items = list(items)
    while len(items) >= 2 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + size:]
            if len(cand) < len(items) and test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and time.monotonic() < deadline and test([]):
        items = []
    return items


def minimise(mod, batch, findings, cls, budget_s=60):
    """batch: list of scenarios, the last of which violates.  Returns the reduced list."""
    deadline = time.monotonic() + budget_s
    tried = [0]

    def fails(scns):
        tried[0] += 1
        v = viol_of(run_batch(mod, scns, findings, 60))
        return v is not None and v[0] == cls

    if fails(batch[-1:]):
        batch = batch[-1:]
    elif fails(batch):
        prefix = ddmin(batch[:-1], lambda p: fails(p + batch[-1:]), deadline)
        batch = prefix + batch[-1:]
    else:
        return None, tried[0]
    scn = batch[-1]
    pre = batch[:-1]
    # explicit schedule first
    if scn.get("schedule") and "preempt" not in scn["schedule"]:
        v = viol_of(run_batch(mod, pre + [scn], findings, 60))
        if v and v[2] is not None:
            cand = dict(scn, schedule={"preempt": v[2]})
            if fails(pre + [cand]):
                scn = cand
    keys = getattr(mod, "DDMIN_KEYS", ["ops"])
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for key in keys:
            if isinstance(scn.get(key), list) and scn[key]:
                new = ddmin(scn[key], lambda p: fails(pre + [dict(scn, **{key: p})]), deadline)
                if len(new) < len(scn[key]):
                    scn = dict(scn, **{key: new})
                    changed = True
        if scn.get("schedule") and "preempt" in scn["schedule"]:
            pl = scn["schedule"]["preempt"]
            new = ddmin(pl, lambda p: fails(pre + [dict(scn, schedule={"preempt": p})]), deadline)
            if len(new) < len(pl):
                scn = dict(scn, schedule={"preempt": new})
                changed = True
        for cand in list(shrink_faults(scn)) + list(mod.shrink(scn) if hasattr(mod, "shrink") else []):
            if time.monotonic() > deadline:
                break
            if fails(pre + [cand]):
                scn = cand
                changed = True
                break
    return pre + [scn], tried[0]


def shrink_faults(scn):
    for i, op in enumerate(scn.get("ops", [])):
        if isinstance(op, dict) and op.get("faults"):
            for j in range(len(op["faults"])):
                nop = dict(op, faults=op["faults"][:j] + op["faults"][j + 1:])
                yield dict(scn, ops=scn["ops"][:i] + [nop] + scn["ops"][i + 1:])


# ------------------------------------------------------------------ driver

def usable_cpus():
    try:
        n = len(os.sched_getaffinity(0))
    except OSError:
        n = os.cpu_count() or 1
    try:
        q, p = open("/sys/fs/cgroup/cpu.max").read().split()
        if q != "max":
            n = min(n, max(1, int(int(q) / int(p))))
    except (OSError, ValueError):
        pass
    return max(1, n)


def scenarios(mod, seed, tier, n):
    directed = mod.directed() if hasattr(mod, "directed") else []
    for k, d in enumerate(directed):
        d.setdefault("name", f"directed-{k}")
        yield d
    for i in range(n):
        rng = rng_for(seed, mod.ID, i)
        scn = mod.generate(rng, i, tier)
        scn["index"] = i
        scn = json.loads(json.dumps(scn))
        yield scn


def explore(mod, seed, tier, workers, wall_cap, n_runs, batch_size):
    """Run all batches; returns (results list in order, first violation batch or None, errors)."""
    findings = load_findings(mod.ID)
    allscn = list(scenarios(mod, seed, tier, n_runs))
    batches = [allscn[i:i + batch_size] for i in range(0, len(allscn), batch_size)]
    live = {}
    results = [None] * len(batches)
    nxt = 0
    t0 = time.monotonic()
    first_bad = None
    errors = []
    import select

    bufs = {}
    while nxt < len(batches) or live:
        while nxt < len(batches) and len(live) < workers:
            if first_bad is not None and nxt > first_bad:
                nxt = len(batches)
                break
            if time.monotonic() - t0 > wall_cap:
                nxt = len(batches)
                break
            pid, fd = fork_batch(mod, batches[nxt], findings)
            live[fd] = (pid, nxt, time.monotonic())
            bufs[fd] = b""
            nxt += 1
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 5)
        now = time.monotonic()
        for fd in list(live):
            pid, bi, started = live[fd]
            if fd in rd:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    bufs[fd] += chunk
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                res = pickle.loads(bufs[fd]) if bufs[fd] else ("err", "batch child died without a result", [])
            elif now - started > 240:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                res = ("timeout", f"batch {bi} exceeded its wall-clock limit", [])
            else:
                continue
            del live[fd]
            results[bi] = res
            if res[0] != "ok":
                errors.append((bi, res[1]))
            elif viol_of(res) and (first_bad is None or bi < first_bad):
                first_bad = bi
    return findings, batches, results, first_bad, errors, time.monotonic() - t0
