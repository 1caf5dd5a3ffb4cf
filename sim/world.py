"""Other worlds: interpreters with another string-hash seed, clock, time zone and working directory.

A world is a server process started by the check; each request is served by a fork of it, so that every
answer is that of a fresh process in that world.  The clock is simulated underneath Python by an LD_PRELOAD
shim (sim/clockshim.c), built with gcc when the check starts.
"""
import os
import pickle
import signal
import socket
import subprocess
import sys
import tempfile
import traceback

from .core import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
CONFIGS = [
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Kathmandu", "SIM_CLOCK": "851000000,100"},
    {"PYTHONHASHSEED": "77", "TZ": "America/St_Johns", "SIM_CLOCK": "-700000000,5000"},
    {"PYTHONHASHSEED": "4242", "TZ": "Pacific/Kiritimati", "SIM_CLOCK": "12345,0"},
]
SOCKETS = []
CLOCK = False


def build_shim(d):
    so = os.path.join(d, "clockshim.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "clockshim.c"), "-ldl"], capture_output=True)
    return so if r.returncode == 0 else None


def start(modname, d):
    """Start one server per configuration; d is a scratch directory of the check."""
    global CLOCK
    so = build_shim(d)
    CLOCK = so is not None
    procs = []
    for k, cfg in enumerate(CONFIGS):
        cwd = os.path.join(d, f"cwd{k}")
        os.makedirs(cwd, exist_ok=True)
        env = dict(os.environ, **cfg, SIM_KEEP_HASHSEED="1", MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", d))
        if so:
            env["LD_PRELOAD"] = so
        path = os.path.join(d, f"s{k}")
        code = f"import sys; sys.path[:0] = [{REPO!r}, {os.path.dirname(HERE)!r}]; sys.dont_write_bytecode = True; from sim import world; world.serve({modname!r}, {path!r}, {os.getpid()}, {k == 0})"
        procs.append(subprocess.Popen([sys.executable, "-c", code], env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("SIM_STDERR") else None))
        SOCKETS.append(path)
    for p in procs:
        line = p.stdout.readline()
        if line.strip() != b"ready":
            raise RuntimeError(f"world server did not start: {line!r}")
        p.stdout.close()
    return procs


def ask(k, fname, *args):
    """Run modname.fname(*args) in world k."""
    s = socket.socket(socket.AF_UNIX)
    s.connect(SOCKETS[k])
    with s, s.makefile("rwb") as f:
        pickle.dump((fname, args), f)
        f.flush()
        st, val = pickle.load(f)
    if st != "ok":
        from .core import HarnessError

        raise HarnessError("world call failed: " + val)
    return val


def serve(modname, path, parent, first):
    import ctypes
    import gc
    import importlib
    import warnings

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the check
    if os.getppid() != parent:
        os._exit(1)
    warnings.simplefilter("ignore")
    from . import procstate

    diff = procstate.import_diff()
    from . import seams

    seams.install()
    mod = importlib.import_module(modname)
    if first:
        diff += procstate.FirstUse(mod.warm).found
    else:
        mod.warm()
    mod.IMPORT_DIFF = diff
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    gc.collect()
    gc.freeze()
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        c, _ = s.accept()
        pid = os.fork()
        if pid == 0:
            try:
                s.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                with c, c.makefile("rwb") as f:
                    fname, args = pickle.load(f)
                    try:
                        res = ("ok", getattr(mod, fname)(*args))
                    except BaseException as e:  # noqa
                        res = ("err", "".join(traceback.format_exception(e)))
                    pickle.dump(res, f)
                    f.flush()
            finally:
                os._exit(0)
        c.close()


def scratch():
    return tempfile.mkdtemp(prefix="simworld.")
