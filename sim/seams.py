"""Seams between PyPortfolioOpt and the outside world, installed before pypfopt is imported.

The library has no clock, sockets or threads of its own.  What can fail or vary underneath it is: the convex
solver (cvxpy.Problem.solve), dense linear algebra (numpy.linalg), clustering (scipy linkage), optional
imports, the file system (open/write/close), standard output, user callbacks, wall clock / RNG / environment,
and the thread schedule.  Every fault is decided by the scenario: (site, n-th call at that site within the
operation, kind).
"""
import builtins
import collections
import io
import os
import sys

from .core import LIB, REPO, SimInterrupt, StepLimit

COUNTS = collections.Counter()
FAULTS = {}
FIRED = []
TRACE = []  # (site, status) of every seam crossing since begin()
RESIDUAL = []  # how far each real solution is from satisfying the very problem the solver was handed
ACTIVE = False
BYPASS = 0


class SimFault:
    pass


def begin(faults=()):
    """Arm the faults of one operation."""
    global ACTIVE
    COUNTS.clear()
    FAULTS.clear()
    FIRED.clear()
    TRACE.clear()
    RESIDUAL.clear()
    for f in faults or ():
        FAULTS[(f["site"], f["n"])] = f
    ACTIVE = True


def end():
    global ACTIVE
    ACTIVE = False
    fired = list(FIRED)
    FAULTS.clear()
    return fired


TID = None  # set by the scheduler: current simulated thread
THREAD_FAULTS = {}  # tid -> (counts, faults)


def begin_thread(faults=()):
    """Arm the faults of one operation of the current simulated thread."""
    THREAD_FAULTS[TID()] = (collections.Counter(), {(f["site"], f["n"]): f for f in faults or ()}, [])


def end_thread():
    return THREAD_FAULTS.pop(TID())[2]


def hit(*sites):
    if TID is not None:
        counts, faults, fired = THREAD_FAULTS.get(TID(), (collections.Counter(), {}, []))
        found = None
        for s in sites:
            n = counts[s]
            counts[s] += 1
            found = found or faults.get((s, n))
        if found:
            fired.append(found)
        return found
    found = None
    for s in sites:
        n = COUNTS[s]
        COUNTS[s] += 1
        f = FAULTS.get((s, n))
        if f is not None and found is None:
            found = f
    if found is not None:
        FIRED.append(found)
    return found


class bypass:
    """Reference models run with all seams transparent."""

    def __enter__(self):
        global BYPASS
        BYPASS += 1

    def __exit__(self, *a):
        global BYPASS
        BYPASS -= 1


def on():
    return ACTIVE and not BYPASS


def from_library(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(LIB)


# ---------------------------------------------------------------- solver

SOLVER_FAIL_STATUS = ["infeasible", "infeasible_inaccurate", "unbounded", "unbounded_inaccurate", "infeasible_or_unbounded"]
SOLVER_ITERATE = ["infeasible_inaccurate_iterate", "unbounded_inaccurate_iterate"]  # the same, with an iterate left behind
SOLVER_KINDS = ["solver_error", "user_limit", *SOLVER_ITERATE, "interrupt_before", "interrupt_after", "memory"] + SOLVER_FAIL_STATUS
SOLVER_BENIGN = ["optimal_inaccurate"]
yield_hook = None  # set by the scheduler: extra scheduling points at seams


def install_solver():
    import cvxpy as cp
    from cvxpy.reductions.solution import failure_solution

    orig = cp.Problem.solve

    def solve(self, *a, **k):
        if not on():
            return orig(self, *a, **k)
        if yield_hook:
            yield_hook("solver")
        f = hit("solver")
        kind = f["kind"] if f else None
        if kind == "solver_error":
            TRACE.append(("solver", kind))
            raise cp.error.SolverError("simulated: solver failed")
        if kind == "interrupt_before":
            TRACE.append(("solver", kind))
            raise SimInterrupt()
        if kind == "memory":
            TRACE.append(("solver", kind))
            raise MemoryError("simulated")
        if kind in SOLVER_FAIL_STATUS:
            with bypass():
                try:
                    orig(self, *a, **k)  # the solver works on the problem, then gives up
                except cp.error.SolverError:
                    pass
            self.unpack(failure_solution(kind))
            TRACE.append(("solver", kind))
            return self.value
        with bypass():
            r = orig(self, *a, **k)
            RESIDUAL.append(residual(self))
        status = self.status
        if kind == "user_limit" or kind in SOLVER_ITERATE:
            for i, v in enumerate(self.variables()):
                if v.value is not None:
                    v.save_value(v.value * 0.5 + 0.01 * (i + 1))  # an iterate short of the optimum
            self._status = status = kind.replace("_iterate", "")
        elif kind == "optimal_inaccurate" and status == "optimal":
            self._status = status = "optimal_inaccurate"
        TRACE.append(("solver", status))
        if kind == "interrupt_after":
            raise SimInterrupt()
        if yield_hook:
            yield_hook("solver-done")
        return r

    solve.__wrapped__ = orig
    cp.Problem.solve = solve


def residual(problem):
    """Largest violation of the posed constraints by the solution the solver declared optimal (a solver can
    declare garbage optimal; that is not the library's doing)."""
    import numpy as np

    if problem.status not in ("optimal", "optimal_inaccurate"):
        return 0.0
    worst = 0.0
    for c in problem.constraints:
        try:
            v = float(np.max(c.violation()))
        except ValueError:
            v = np.inf
        worst = max(worst, v) if v == v else np.inf
    return worst


def solver_statuses():
    return [s for site, s in TRACE if site == "solver"]


# ---------------------------------------------------------------- linear algebra, clustering

LINALG = ["solve", "lstsq", "inv", "pinv", "eigh", "eigvalsh", "cholesky", "multi_dot", "norm", "det", "eig", "svd", "matrix_rank"]
LINALG_KINDS = ["singular", "noconv", "interrupt", "memory"]


def _raise(kind):
    import numpy as np

    if kind == "singular":
        raise np.linalg.LinAlgError("Singular matrix")
    if kind == "noconv":
        raise np.linalg.LinAlgError("simulated: did not converge")
    if kind == "notpd":
        raise np.linalg.LinAlgError("Matrix is not positive definite")
    if kind == "interrupt":
        raise SimInterrupt()
    if kind == "memory":
        raise MemoryError("simulated")
    if kind == "value":
        raise ValueError("simulated: The condensed distance matrix must contain only finite values.")
    if kind == "import":
        raise ImportError("simulated")
    raise AssertionError(kind)


def install_linalg():
    import numpy as np

    def wrap(name, fn):
        def w(*a, **k):
            if on() and from_library():
                if yield_hook:
                    yield_hook("linalg")
                f = hit("linalg." + name, "linalg")
                TRACE.append(("linalg." + name, f["kind"] if f else "ok"))
                if f:
                    _raise(f["kind"])
            return fn(*a, **k)

        w.__name__ = name
        w.__wrapped__ = fn
        return w

    for name in LINALG:
        setattr(np.linalg, name, wrap(name, getattr(np.linalg, name)))


MINIMIZE_KINDS = ["not_converged", "not_converged", "interrupt_before", "interrupt_after", "memory"]


def install_minimize():
    import scipy.optimize as sco

    orig = sco.minimize

    def minimize(*a, **k):
        if not (on() and from_library()):
            return orig(*a, **k)
        f = hit("minimize")
        kind = f["kind"] if f else None
        if kind == "interrupt_before":
            raise SimInterrupt()
        if kind == "memory":
            raise MemoryError("simulated")
        r = orig(*a, **k)
        if kind == "not_converged":  # the iterations ran out
            r.update(x=r["x"] * 0.7 + 0.02, success=False, status=9, message="Iteration limit reached")
        TRACE.append(("minimize", "optimal" if r["success"] else "failed"))
        if kind == "interrupt_after":
            raise SimInterrupt()
        return r

    minimize.__wrapped__ = orig
    sco.minimize = minimize


def install_linkage():
    import scipy.cluster.hierarchy as sch

    def wrap(name, fn):
        def w(*a, **k):
            if on() and from_library():
                f = hit("cluster." + name, "cluster")
                TRACE.append(("cluster." + name, f["kind"] if f else "ok"))
                if f:
                    _raise(f["kind"])
            return fn(*a, **k)

        w.__name__ = name
        w.__wrapped__ = fn
        return w

    for name in ("linkage", "to_tree"):
        setattr(sch, name, wrap(name, getattr(sch, name)))


# ---------------------------------------------------------------- optional imports

class hidden_modules:
    """While active, importing the named packages fails as if they were not installed."""

    def __init__(self, *names):
        self.names = names

    def __enter__(self):
        self.saved = {}
        for m in list(sys.modules):
            if any(m == n or m.startswith(n + ".") for n in self.names):
                self.saved[m] = sys.modules[m]
                sys.modules[m] = None
        for n in self.names:
            if n not in self.saved:
                self.saved.setdefault(n, False)
                sys.modules[n] = None

    def __exit__(self, *a):
        for m, v in self.saved.items():
            if v is False:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v


# ---------------------------------------------------------------- simulated disk

DISK_ROOT = None
HANDLES = []
_real_open = builtins.open
FILE_KINDS = ["open_eio", "open_enospc", "open_eacces", "enospc", "eio", "close_eio", "interrupt"]
FILE_BENIGN = ["short", "eintr"]


class SimFileIO(io.FileIO):
    """A real file in the scratch directory whose writes can be cut short, interrupted or refused."""

    def __init__(self, path, mode, closefd=True, opener=None):
        self._closing = False
        super().__init__(path, mode, closefd, opener)
        HANDLES.append(self)

    def write(self, b):
        if not on():
            return super().write(b)
        f = hit("write")
        kind = f["kind"] if f else None
        mv = memoryview(b).cast("B")
        TRACE.append(("write", kind or "ok"))
        if kind == "short" and len(mv) > 1:
            return super().write(mv[: max(1, int(len(mv) * f.get("frac", 0.5)))])
        if kind == "eintr":
            raise InterruptedError(4, "simulated EINTR")
        if kind in ("enospc", "eio"):
            k = int(len(mv) * f.get("frac", 0.5))
            if k:
                super().write(mv[:k])  # torn: part of it reached the disk
            raise OSError(28 if kind == "enospc" else 5, "simulated " + kind)
        if kind == "interrupt":
            raise SimInterrupt()
        return super().write(b)

    def close(self):
        if self.closed or self._closing:
            return super().close()
        self._closing = True
        f = hit("close") if on() else None
        super().close()
        if f:
            TRACE.append(("close", f["kind"]))
            raise OSError(5, "simulated close failure")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    try:
        path = os.path.abspath(os.fspath(file)) if isinstance(file, (str, bytes, os.PathLike)) else None
    except TypeError:
        path = None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(file, int) and file in FDS and on():  # os.fdopen of a simulated descriptor
        FDS.discard(file)
        path = file
    elif not (on() and DISK_ROOT and path and path.startswith(DISK_ROOT)):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif opener is None:  # an opener goes through os.open below
        open_fault(path)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    raw = SimFileIO(path, raw_mode, closefd, opener)
    FDS.discard(raw.fileno())
    size = buffering if buffering and buffering > 1 else 8192
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif "r" in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


def open_fault(path):
    f = hit("open")
    TRACE.append(("open", f["kind"] if f else "ok"))
    if f:
        code = {"open_eio": 5, "open_enospc": 28, "open_eacces": 13}[f["kind"]]
        raise OSError(code, "simulated " + f["kind"], path)


FDS = set()  # descriptors of simulated files opened with os.open


def install_disk():
    builtins.open = sim_open
    io.open = sim_open
    r_open, r_write, r_close = os.open, os.write, os.close

    def inside(path):
        try:
            p = os.fsdecode(os.path.abspath(os.fspath(path)))
        except TypeError:
            return False
        return bool(on() and DISK_ROOT and p.startswith(DISK_ROOT))

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or isinstance(path, int) or not inside(path):
            return r_open(path, flags, mode, dir_fd=dir_fd)
        open_fault(path)
        fd = r_open(path, flags, mode)
        FDS.add(fd)
        return fd

    def sim_os_write(fd, data):
        if fd not in FDS or not on():
            return r_write(fd, data)
        f = hit("write")
        kind = f["kind"] if f else None
        mv = memoryview(data).cast("B")
        TRACE.append(("write", kind or "ok"))
        if kind == "short" and len(mv) > 1:
            return r_write(fd, mv[: max(1, int(len(mv) * f.get("frac", 0.5)))])
        if kind in ("enospc", "eio"):
            k = int(len(mv) * f.get("frac", 0.5))
            if k:
                r_write(fd, mv[:k])
            raise OSError(28 if kind == "enospc" else 5, "simulated " + kind)
        if kind == "interrupt":
            raise SimInterrupt()
        return r_write(fd, data)  # EINTR is retried inside os.write

    def sim_os_close(fd):
        known = fd in FDS
        FDS.discard(fd)
        f = hit("close") if known and on() else None
        r_close(fd)
        if f:
            TRACE.append(("close", f["kind"]))
            raise OSError(5, "simulated close failure")

    os.open, os.write, os.close = sim_os_open, sim_os_write, sim_os_close

    def failing(orig, site):
        def sim(*a, **k):
            if a and (inside(a[0]) or a[0] in FDS if not isinstance(a[0], (list, dict)) else False):
                f = hit(site)
                TRACE.append((site, f["kind"] if f else "ok"))
                if f:
                    raise OSError(5, "simulated " + f["kind"])
            return orig(*a, **k)
        return sim

    os.replace, os.rename = failing(os.replace, "rename"), failing(os.rename, "rename")
    os.fsync = failing(os.fsync, "fsync")


def open_handles():
    return [h for h in HANDLES if not h.closed]


# ---------------------------------------------------------------- standard output

class SimStdout(io.StringIO):
    """Captures prints; can fail at the n-th write (closed pipe, full disk)."""

    def write(self, s):
        if on():
            f = hit("stdout")
            if f:
                TRACE.append(("stdout", f["kind"]))
                if f["kind"] == "interrupt":
                    raise SimInterrupt()
                raise BrokenPipeError(32, "simulated")
        return super().write(s)


# ---------------------------------------------------------------- step counting and thread scheduling

TOOL = 4
STEPS = 0
LIMIT = 4_000_000
LINE_HOOK = None
_codes = None


def reset():
    """Before and after every run."""
    global STEPS, LINE_HOOK, yield_hook, BYPASS, LIMIT, TID
    end()
    TID = None
    THREAD_FAULTS.clear()
    STEPS = 0
    LIMIT = 4_000_000
    LINE_HOOK = None
    yield_hook = None
    BYPASS = 0
    HANDLES.clear()


def library_codes():
    import types

    seen = {}

    def add(code):
        if isinstance(code, types.CodeType) and code.co_filename.startswith(LIB) and id(code) not in seen:
            seen[id(code)] = code
            for c in code.co_consts:
                add(c)

    def walk(obj, depth=0):
        if depth > 4:
            return
        if isinstance(obj, (staticmethod, classmethod)):
            walk(obj.__func__, depth)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f:
                    walk(f, depth)
        elif isinstance(obj, types.FunctionType):
            add(obj.__code__)
            if getattr(obj, "__wrapped__", None) is not None:
                walk(obj.__wrapped__, depth + 1)
            for c in obj.__closure__ or ():
                try:
                    walk(c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(obj, type):
            if getattr(obj, "__module__", "").startswith("pypfopt"):
                for v in vars(obj).values():
                    walk(v, depth + 1)

    for name, m in list(sys.modules.items()):
        if name == "pypfopt" or name.startswith("pypfopt."):
            for v in list(vars(m).values()):
                walk(v)
    return list(seen.values())


def _on_line(code, line):
    global STEPS
    if not ACTIVE or BYPASS:
        return
    STEPS += 1
    if STEPS > LIMIT:
        raise StepLimit()
    if LINE_HOOK is not None:
        LINE_HOOK(code, line)


def install_monitoring():
    global _codes
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "pypfopt-sim")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    _codes = library_codes()
    for c in _codes:
        mon.set_local_events(TOOL, c, mon.events.LINE)


def one_thread(wrapper):
    def call(*a):
        return wrapper(*a[:-1], dict(a[-1], threads=1))

    return call


def install():
    os.environ.setdefault("MPLBACKEND", "Agg")
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    import osqp

    setup0 = osqp.OSQP.setup

    def setup(self, *args, **settings):  # OSQP adapts rho by wall clock unless told otherwise
        settings.setdefault("adaptive_rho_interval", 100)
        return setup0(self, *args, **settings)

    osqp.OSQP.setup = setup
    import scipy.optimize._linprog_highs as lp
    import scipy.optimize._milp as milp

    for mod in (lp, milp):  # HiGHS starts a pool of threads, which a forked process would wait for in vain
        mod._highs_wrapper = one_thread(mod._highs_wrapper)
    install_solver()
    install_linalg()
    install_linkage()
    install_minimize()
    install_disk()
    import pypfopt  # noqa
    import pypfopt.plotting  # noqa

    here = os.path.realpath(os.path.dirname(pypfopt.__file__))
    if here != LIB:
        raise RuntimeError(f"pypfopt imported from {here}, not {LIB}")
    install_monitoring()
