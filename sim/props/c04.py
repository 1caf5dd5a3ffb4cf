"""C04: optimisers are isolated from each other, in any interleaving."""
import numpy as np

from .. import core, mixed, optsim, sched
from ..util import short

ID = "C04"
RULE = ("(a) seeded interleavings of operations on 2-6 optimisers built from the same input objects, and on deep copies of them, with solver faults: after every operation all other objects' "
        "weights and reports are compared with before, and at the end each object's observations with those of its own operations alone in a pristine process; (b) 2-3 separately built "
        "optimisers in simulated threads pre-empted at library lines and around solves under a seeded schedule, each compared with its own operations alone; (c) the same two forms over objects of the other classes (HRP, CLA, "
        "Black-Litterman, discrete allocation, covariance shrinkage, and mean-variance), on data sets with equal labels and shapes; distinct = event-log digest")
RUNS = {"quick": 2200, "thorough": 40000}
BATCH = 8
ZYGOTE = True
ASSUMPTIONS = ["a copy made with deepcopy() shares solver expressions with its original, so copies are interleaved call by call, not inside one call",
               "a thread is pre-empted between source lines of pypfopt and around solver and linear-algebra calls, not inside cvxpy"]
PROF = {"fault_rates": [0, 0.2, 0.4], "objects": 3, "len": (5, 14), "copies": 1.0,
        "weights": {"solve": 12, "bad": 1.0, "setw": 1.2, "nonconvex": 0.4, "con": 1.4, "addobj": 1.2, "copy": 2.5, "convex": 0.3, "perf": 1.5, "clean": 0.6, "drop": 0.5, "new": 0.5}}
TPROF = {"fault_rates": [0, 0.25], "objects": 1, "len": (2, 5), "copies": 0.0,
         "weights": {"solve": 12, "bad": 0.5, "setw": 1, "nonconvex": 0.0, "con": 1.0, "addobj": 1, "copy": 0, "convex": 0.3, "perf": 2, "clean": 1, "drop": 0, "new": 0}}


def generate(rng, i, tier):
    if i % 5 > 2:
        return mixed.generate(rng, threaded=i % 10 > 7)
    if i % 5 < 2:
        return optsim.generate(rng, PROF)
    base = optsim.generate(rng, TPROF)
    threads = [base["ops"]]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(20):
            s = optsim.generate(rng, TPROF)
            if s["cfg"]["n"] == base["cfg"]["n"] and s["cfg"]["T"] >= base["cfg"]["T"]:
                break
        else:
            s = base
        alt = rng.random() < 0.4  # on other data
        threads.append([dict(op, faults=[]) if op["op"] == "perf" else dict(op, alt=alt) if op["op"] == "new" else op for op in s["ops"]])
    threads[0] = [dict(op, faults=[]) if op["op"] == "perf" else op for op in threads[0]]
    return {"cfg": base["cfg"], "threads": threads, "ops": [], "schedule": {"seed": rng.randrange(10**9), "p": rng.choice([0.5, 0.1, 0.03, 0.01])}}


def shrink(scn):
    for t, ops in enumerate(scn.get("threads", [])):
        for k in range(len(ops) - 1, -1, -1):
            yield dict(scn, threads=scn["threads"][:t] + [ops[:k] + ops[k + 1:]] + scn["threads"][t + 1:])
    if len(scn.get("threads", [])) > 2:
        for t in range(len(scn["threads"])):
            yield dict(scn, threads=scn["threads"][:t] + scn["threads"][t + 1:])


def alone(scn):
    """Observations of one object's own operations in a pristine process."""
    if scn.get("mixed"):
        return mixed.Sim(scn, core.Ctx(ID)).run().obs
    return optsim.Sim(scn, core.Ctx(ID), set(), shared={}).run().obs


def lineage(ops, oid):
    """Indices of the operations that made object oid what it is."""
    out, cur, upto = [], oid, len(ops)
    while True:
        mine = []
        src = None
        for k in range(upto):
            op = ops[k]
            if op["op"] == "copy" and op["id"] == cur:
                src, at = op["obj"], k
                mine = []
            elif op["op"] == "new" and op["id"] == cur or op["op"] not in ("new", "copy") and op.get("obj") == cur:
                mine.append(k)
        out = mine + out
        if src is None:
            return out
        cur, upto = src, at


def compare(ctx, who, ops, obs, ref, solver):
    tol = 1e-6 if solver else 5e-3
    ctx.check(len(obs) == len(ref), "not-as-if-alone", f"{who}: {len(obs)} observations, alone {len(ref)}")
    for (k, a), (_, b) in zip(obs, ref):
        if solver == "mixed":
            if mixed.differ(a, b, 1e-6 if "EF" in who else 1e-9):
                ctx.fail("not-as-if-alone", f"{who}: {ops[k]['op']} {ops[k].get('m', '')} gave {short(a)}; alone it gives {short(b)}")
        elif optsim.obs_differ(a, b, tol):
            ctx.fail("not-as-if-alone", f"{who}: {ops[k]['op']} {ops[k].get('m', '')} gave {short(a)}; alone it gives {short(b)}")


def execute(scn, ctx):
    if "threads" in scn:
        return execute_threads(scn, ctx)
    ops = scn["ops"]
    mix = bool(scn.get("mixed"))
    if mix:
        sim = mixed.Sim(scn, ctx).run()
        solver = {}
    else:
        sim = optsim.Sim(scn, ctx, {"C04"}, shared={}).run()
        solver = {op["id"]: op["solver"] for op in ops if op["op"] == "new"}
    cls = {op["id"]: op["cls"] for op in ops if op["op"] == "new"}
    for op in ops:
        if op["op"] == "copy":
            solver[op["id"]] = solver.get(op["obj"])
            cls[op["id"]] = cls.get(op["obj"], "?")
    seen = {op.get("id") for op in ops if op["op"] in ("new", "copy")}
    obs = dict(sim.obs)
    for oid in sorted(seen):
        idx = lineage(ops, oid)
        if not idx or ops[idx[0]]["op"] != "new" or mix and oid not in sim.objs:
            continue
        sub = [dict(ops[k], **({"id": 0} if ops[k]["op"] == "new" else {"obj": 0})) for k in idx if ops[k]["op"] != "drop"]
        if len(sub) == len([o for o in ops if o["op"] != "drop"]):
            continue  # it was alone
        idx = [k for k in idx if ops[k]["op"] != "drop"]
        ref = core.isolated(__name__, "alone", {"cfg": scn["cfg"], "ops": sub, "mixed": mix})
        mine = [(k, obs[k]) for k in idx if k in obs]
        compare(ctx, f"object {oid} ({cls[oid]})", ops, mine, ref, "mixed" if mix else solver.get(oid))
        ctx.count("alone comparisons")


def execute_threads(scn, ctx):
    mix = bool(scn.get("mixed"))
    refs = [core.isolated(__name__, "alone", {"cfg": scn["cfg"], "ops": ops, "mixed": mix}) for ops in scn["threads"]]
    shared = {}
    if mix:
        inputs = mixed.Inputs(scn["cfg"])
        sims = [mixed.Sim({"cfg": scn["cfg"], "ops": ops}, ctx, threaded=True, inputs=inputs) for ops in scn["threads"]]
    else:
        sims = [optsim.Sim({"cfg": scn["cfg"], "ops": ops}, ctx, set(), threaded=True, shared=shared) for ops in scn["threads"]]
        for s in sims:
            s.market = sims[0].market
            s.alt = sims[0].market_of({"alt": True})
    sc = sched.Scheduler([s.run for s in sims], scn["schedule"])
    res = sc.run()
    ctx.trace = sc.trace
    ctx.count("thread switches", len(sc.trace))
    ctx.count("threaded runs")
    ctx.stats["steps"] += sc.step
    ctx.nontrivial = True
    for t, (s, r) in enumerate(zip(sims, res)):
        if r[0] == "exc":
            raise r[1]
    for t, s in enumerate(sims):
        new = [op for op in scn["threads"][t] if op["op"] == "new"]
        compare(ctx, f"thread {t}" + "".join(f" ({op['cls']})" for op in new), scn["threads"][t], s.obs, refs[t], "mixed" if mix else all(op["solver"] for op in new) or None)
    for w in set(sc.where):
        ctx.state("switch", w)
