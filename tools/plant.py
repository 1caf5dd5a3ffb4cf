"""Try planted bugs in scratch copies of /repo: tools/plant.py [--checks] [-j N] ID...   (or ALL)

For each seeded/ID: applies patch.diff to a scratch copy, builds, runs the stable tests, runs demo.sh on the unchanged copy
(must exit 0) and on the patched one (must not), then the check of meta.json's property (or --props C01,C02) against the copy.
"""
import argparse
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH="/opt/vp/plugins")


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def demo(d, copy):
    """demo.sh names /repo; run it from a moved folder against the copy by bind-free substitution of the path."""
    t = tempfile.mkdtemp(prefix="demo.")
    for f in glob.glob(os.path.join(d, "*")):
        if not f.endswith((".diff", ".patch")) and os.path.basename(f) != "meta.json":
            shutil.copy(f, t)
    rc, out = sh(["bash", os.path.join(t, "demo.sh")], copy, env={k: v for k, v in os.environ.items() if not k.startswith("SIM")}, timeout=300)
    shutil.rmtree(t)
    return rc, out


def trial(pid, a):
    d = os.path.join(HERE, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = tempfile.mkdtemp(prefix="plant.")
    copy = os.path.join(base, "repo")
    res = {"id": pid, "property": meta["property"]}
    try:
        sh(["cp", "-a", "/repo", copy], "/")
        sh("find . -name __pycache__ -type d -prune -exec rm -r {} +", copy)
        if not a.only_checks:
            rc, out = demo(d, copy)
            res["demo_unchanged"] = rc
            if rc:
                res["demo_out"] = out[-800:]
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            res["apply"] = out
            return res
        if not a.only_checks:
            rc, out = demo(d, copy)
            res["demo_patched"] = rc
            res["demo_says"] = out.strip().splitlines()[-1:] if rc else out[-500:]
            env = dict(ENV, MPLCONFIGDIR=base)
            rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "osqp_fixed_interval", "-n", str(a.w), "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={base}/j.xml", "tests"], copy, env)
            passed = set()
            for c in ET.parse(f"{base}/j.xml").getroot().iter("testcase"):
                if c.find("failure") is None and c.find("error") is None and c.find("skipped") is None:
                    passed.add("::".join((c.get("classname"), c.get("name"))))
            res["tests_broken"] = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)[:5]
        if a.checks or a.only_checks:
            for prop in (a.props.split(",") if a.props else [meta["property"]]):
                env = dict(os.environ, SIM_REPO=copy, SIM_OUT=base, SIM_WORKERS=str(a.w), VERIF_SEED=str(a.seed), VERIF_TIER="quick")
                rc, out = sh([os.path.join(HERE, "check.py"), prop] + (["--no-min"] if a.no_min else []), HERE, env, 1200)
                lines = out.strip().splitlines()
                res["check_" + prop] = [rc, "; ".join(x[:260] for x in lines if x.startswith("run ") or "replay in" in x or "unexpected" in x)] if rc == 1 else [rc] + lines[-1:]
                if a.keep and rc == 1:
                    for f in glob.glob(base + "/replays/*"):
                        shutil.copy(f, f"/tmp/{pid}-{os.path.basename(f)}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--only-checks", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--props")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-w", type=int, default=2)
    a = ap.parse_args()
    ids = sorted(os.listdir(os.path.join(HERE, "seeded"))) if a.ids == ["ALL"] else a.ids
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda i: trial(i, a), ids):
            ok = a.only_checks or (r.get("demo_unchanged") == 0 and r.get("demo_patched") not in (0, None) and not r.get("tests_broken") and "apply" not in r)
            caught = any(k.startswith("check_") and v[0] == 1 for k, v in r.items())
            print(("VALID  " if ok else "INVALID"), ("CAUGHT" if caught else "missed" if a.checks or a.only_checks else ""), json.dumps(r), flush=True)


main()
