"""Process-wide state that a library has no business changing."""
import os
import sys


def snapshot(files=True):
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    import numpy as np

    st = {"modules": frozenset(sys.modules)}
    s = np.random.get_state()
    st["numpy random state"] = (s[0], s[1].tobytes(), s[2:])
    st["random state"] = random.getstate()
    st["numpy error settings"] = (tuple(sorted(np.geterr().items())), np.geterrcall())
    st["numpy print options"] = repr(sorted(np.get_printoptions().items(), key=str))
    if "pandas" in sys.modules:
        import pandas as pd

        cfg = pd._config.config
        st["pandas options"] = tuple((k, repr(cfg._get_option(k, silent=True))) for k in sorted(cfg._registered_options))
    if "matplotlib" in sys.modules:
        import matplotlib

        st["matplotlib defaults"] = tuple((k, repr(v)) for k, v in sorted(dict.items(matplotlib.rcParams)))
    st["warning filters"] = (tuple(map(repr, warnings.filters)), id(warnings.showwarning))
    st["working directory"] = os.getcwd()
    st["environment variables"] = tuple(sorted(os.environ.items()))
    st["threads"] = tuple(sorted(t.name for t in threading.enumerate()))
    if files:
        fds = []
        for d in os.listdir("/proc/self/fd"):
            try:
                name = os.readlink(f"/proc/self/fd/{d}")
                if not name.endswith((".ttf", ".afm", ".otf", "/fd")):  # matplotlib caches fonts
                    fds.append((int(d), name))
            except OSError:
                pass
        st["open files"] = tuple(sorted(fds))
    m = os.umask(0)
    os.umask(m)
    st["umask"] = m
    st["signal handlers"] = tuple(str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGFPE))
    st["python settings"] = (tuple(sys.path), sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.excepthook), id(sys.displayhook), id(sys.stdin), len(sys.meta_path), gc.isenabled(), gc.get_threshold(),
                             sys.flags.dev_mode, sys.get_int_max_str_digits())
    st["streams"] = (id(sys.stdout), id(sys.stderr))
    st["decimal context"] = repr(decimal.getcontext())
    st["locale"] = locale.setlocale(locale.LC_ALL)
    root = logging.getLogger()
    st["logging"] = (root.level, len(root.handlers), root.disabled, logging.root.manager.disable)
    return st


def diff(a, b, loading=False):
    """Names of what changed.  While a third-party package is being loaded for the first time anything may change."""
    tops = {m.partition(".")[0] for m in a["modules"]}
    if not loading and any(m.partition(".")[0] not in tops and m.partition(".")[0] not in sys.stdlib_module_names for m in b["modules"] - a["modules"]):
        return []
    return [k for k in a if k in b and k != "modules" and a[k] != b[k]]


def import_diff():
    """What importing the library itself changes, its dependencies being loaded already."""
    import cvxpy  # noqa
    import matplotlib.pyplot  # noqa
    import pandas  # noqa
    import scipy.cluster.hierarchy  # noqa
    import scipy.optimize  # noqa

    env = dict(os.environ)
    os.environ.clear()  # of what the harness has set for itself
    os.environ.update({k: v for k, v in env.items() if k in ("HOME", "PATH", "MPLCONFIGDIR")})
    a = snapshot()
    import pypfopt
    import pypfopt.plotting  # noqa
    b = snapshot()
    os.environ.clear()
    os.environ.update(env)
    return [(k, changed(a[k], b[k])) for k in diff(a, b, True)]


def changed(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        a, b = [v for v in a if v not in b][:4], [v for v in b if v not in a][:4]
    return str(a)[:300] + " -> " + str(b)[:300]


class FirstUse:
    """What the first calls in a process change, the modules they load (found by a fork doing the same) being loaded already."""

    def __init__(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                fn(lambda what: None)
                os.write(w, "\n".join(m for m in sys.modules if not m.startswith(("pypfopt", "sim."))).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            names = f.read().decode().split("\n")
        os.waitpid(pid, 0)
        import importlib

        for m in names:
            if m and m not in sys.modules:
                try:
                    importlib.import_module(m)
                except BaseException:  # noqa
                    pass
        self.found = []
        self.last = snapshot()
        fn(self.look)

    def look(self, what):
        b = snapshot()
        self.found += [(what, k, changed(self.last[k], b[k])) for k in diff(self.last, b, True)]
        self.last = b
