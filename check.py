#!/opt/venv/bin/python
"""check.py PROP [--replay FILE]     (environment: VERIF_SEED, VERIF_TIER)

Deterministic simulation check of one property of PyPortfolioOpt.  Exit 0: held on everything explored.
Exit 1: 'VIOLATION property=<id> replay=<path>'.  Exit 2: the check itself failed (never reported as holding).
"""
import os
import sys

ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "TZ": "UTC", "LC_ALL": "C.UTF-8",
    "OPENBLAS_CORETYPE": "Haswell",
}
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("SIM_OUT", HERE)  # with SIM_REPO: where trials of planted bugs leave their output
if os.environ.get("SIM_CHILD") != "1":
    env = dict(os.environ, **ENV, SIM_CHILD="1")
    env.setdefault("PYTHONHASHSEED", "0")
    if env["PYTHONHASHSEED"] == "random" or os.environ.get("SIM_KEEP_HASHSEED") != "1":
        env["PYTHONHASHSEED"] = "0"
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-X", "faulthandler", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("SIM_REPO", "/repo"))
sys.path.insert(1, HERE)
import importlib  # noqa
import json  # noqa
import subprocess  # noqa
import time  # noqa
import warnings  # noqa

warnings.simplefilter("ignore")


def main():
    import argparse
    import tempfile

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="internal: file with scenarios; print their log digests")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfgdir = tempfile.mkdtemp(prefix="simcfg.")
    os.environ["MPLCONFIGDIR"] = os.environ["TMPDIR"] = tempfile.tempdir = cfgdir
    try:
        return run(a, seed, tier)
    finally:
        import shutil

        shutil.rmtree(cfgdir, ignore_errors=True)


def run(a, seed, tier):
    from sim import core, seams

    t_start = time.monotonic()
    try:
        mod = importlib.import_module("sim.props." + a.prop.lower())
        if hasattr(mod, "pre_install"):
            mod.pre_install()
        seams.install()
        if hasattr(mod, "setup"):
            mod.setup(tier)
    except Exception as e:
        if core.in_library(e.__traceback__):
            import traceback

            traceback.print_exc()
            print("the library cannot be imported")
            return 2
        raise
    findings = core.load_findings(mod.ID)

    if a.digests:
        scns = json.load(open(a.digests))
        out = []
        for s in scns:
            res = core.run_batch(mod, [s], findings, 120)
            out.append(res[1][0]["digest"] if res[0] == "ok" else res[1])
        print("DIGESTS " + json.dumps(out))
        return 0

    if a.replay:
        rep = json.load(open(a.replay))
        res = core.run_batch(mod, rep["scenarios"], findings, 300, keep_log=True)
        if res[0] != "ok":
            print("replay failed to execute:", res[1])
            return 2
        v = core.viol_of(res)
        for i, r in enumerate(res[1]):
            for line in r["log"]:
                print(f"[{i}] {line}")
        if v:
            print(f"reproduced: {v[0]}: {v[1]}")
            print(f"VIOLATION property={mod.ID} replay={a.replay}")
            return 1
        print("not reproduced")
        return 0

    workers = int(os.environ.get("SIM_WORKERS", 0)) or min(8, core.usable_cpus())
    n_runs = a.runs or mod.RUNS[tier]
    wall_cap = {"quick": 330, "thorough": 7200}[tier]
    print(f"seed {seed} tier {tier} property {mod.ID}: {n_runs} runs on {workers} workers", flush=True)
    findings, batches, results, bad, errors, wall = core.explore(mod, seed, tier, workers, wall_cap, n_runs, getattr(mod, "BATCH", 12))

    import collections

    stats, states, known = collections.Counter(), set(), {}
    runs = nontrivial = events = 0
    digests = set()
    done = []
    for bi, res in enumerate(results):
        if res is None or len(res) < 2 or (res[0] != "ok" and len(res) < 3):
            continue
        rows = res[1] if res[0] == "ok" else res[2]
        for scn, r in zip(batches[bi], rows):
            runs += 1
            events += r["events"]
            stats.update(r["stats"])
            states |= r["states"]
            known.update(r["known"])
            if r["nontrivial"] and r["digest"] not in digests:
                nontrivial += 1
            digests.add(r["digest"])
            done.append((scn, r["digest"]))

    replay_path = None
    if bad is not None:
        rows = results[bad][1]
        batch = batches[bad][: len(rows)]
        cls, detail = rows[-1]["viol"]
        print(f"run {batch[-1].get('index', batch[-1].get('name'))}: {cls}: {detail}", flush=True)
        mini, tried = (batch, 0) if a.no_min else core.minimise(mod, batch, findings, cls, 60 if tier == "quick" else 240)
        reproduced = mini is not None
        if mini is None:
            mini = batch
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        replay_path = os.path.join(OUT, "replays", f"{mod.ID}-{seed}-{tier}.json")
        v = core.viol_of(core.run_batch(mod, mini, findings, 120))
        with open(replay_path, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, "class": cls, "detail": (v[1] if v else detail),
                       "found_at": batch[-1].get("index", batch[-1].get("name")), "original_ops": len(batch[-1].get("ops", [])),
                       "batch_prefix": len(mini) - 1, "minimiser_executions": tried, "scenarios": mini}, f, indent=1)
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), mod.ID, "--replay", replay_path], env=dict(os.environ, SIM_CHILD="0"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 1
        print(f"minimised with {tried} executions to {sum(len(s.get('ops', [])) for s in mini)} operations; "
              f"replay in a fresh process {'reproduces it' if ok else 'does NOT reproduce it'}{'' if reproduced else ' (not reproducible in isolation)'}")

    det = {"re_executed": 0, "mismatches": 0}
    if bad is None and not errors and done and getattr(mod, "RECHECK", True):
        det = recheck(mod, seed, done, 16 if tier == "quick" else 160)

    if hasattr(mod, "finish"):  # cross-process part of a property
        v = mod.finish(seed, tier, stats)
        if v and bad is None:
            cls, detail, payload = v
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            replay_path = os.path.join(OUT, "replays", f"{mod.ID}-{seed}-{tier}.json")
            json.dump({"property": mod.ID, "seed": seed, "class": cls, "detail": detail, "scenarios": payload}, open(replay_path, "w"), indent=1)
            print(f"{cls}: {detail}")
            bad = -1

    faults = {k[len("fault:"):]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[len("probe:"):]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:", "steps"))}
    total = time.monotonic() - t_start
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": nontrivial, "rule": mod.RULE,
            "samples": [s for s, _ in done[: 1]] + [s for s, _ in done[-2:]],
            "runs_per_hour": int(runs / max(wall, 1e-9) * 3600), "seeds_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "simulated_time": {"unit": "library source lines executed under the scheduler (the library has no timers)", "steps": stats.get("steps", 0)},
            "events_logged": events, "faults_injected": faults, "probes": probes, "counters": other,
            "distinct_states": len(states), "state_measure": getattr(mod, "STATE", "abstract state tuples recorded by the workload"),
            "workers": workers, "planned_runs": n_runs, "determinism_recheck": det,
            "components": getattr(mod, "COMPONENTS", {"real": ["pypfopt", "cvxpy and its solvers", "numpy", "pandas", "scipy"], "stub": ["fault-injecting wrappers at the seams"]}),
            "known_findings_seen": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(total, 2), "violations": 1 if bad is not None else 0,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{runs} runs ({nontrivial} distinct non-trivial), {sum(faults.values())} faults fired, {len(states)} states, "
          f"{stats.get('steps', 0)} simulated steps, {total:.1f} s")
    if bad is not None:
        print(f"VIOLATION property={mod.ID} replay={replay_path}")
        return 1
    if errors:
        for bi, e in errors[:3]:
            print(f"batch {bi}: harness error\n{e}")
        return 2
    for fid, text in findings.items():
        if fid in known:
            print(f"KNOWN-FINDING: property={mod.ID} {fid} {text}")
    if runs == 0:
        print("nothing was executed")
        return 2
    return 0


def recheck(mod, seed, done, n):
    """Re-execute a sample of runs in a fresh interpreter with another hash seed; compare event-log digests."""
    import tempfile

    from sim import core

    rng = core.rng_for(seed, mod.ID, "recheck")
    sample = [done[i] for i in sorted(rng.sample(range(len(done)), min(n, len(done))))]
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump([s for s, _ in sample], f)
    f.close()
    env = dict(os.environ, PYTHONHASHSEED="4242")
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), mod.ID, "--digests", f.name], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.unlink(f.name)
    line = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS ")]
    if not line:
        return {"re_executed": 0, "mismatches": 0, "error": p.stderr[-500:]}
    got = json.loads(line[0][8:])
    bad = [i for i, ((s, d), g) in enumerate(zip(sample, got)) if d != g]
    if bad and os.environ.get("SIM_DEBUG"):
        print("recheck mismatches:", [sample[i][0].get("index", sample[i][0].get("name")) for i in bad])
    return {"re_executed": len(got), "mismatches": len(bad), "fresh_interpreter_hash_seed": 4242}


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
