"""C03: re-solving equals starting afresh; structural changes are refused."""
from .. import optsim

ID = "C03"
RULE = ("seeded histories of up to 3 optimiser objects with repeated solves at changing targets, failed solves, queries, refused calls, structural changes before and after solving; "
        "each returned portfolio is compared in objective value with an independent formulation of the same problem; distinct = event-log digest")
RUNS = {"quick": 4500, "thorough": 60000}
BATCH = 15
PROF = {"fault_rates": [0, 0.2, 0.4], "objects": 2, "len": (6, 14), "copies": 0.3, "stick": 0.8,
        "weights": {"solve": 14, "bad": 1.0, "setw": 0.5, "nonconvex": 0.3, "con": 1.0, "convex": 0.4, "perf": 1.0, "addobj": 0.8, "sector": 0.4}}


def generate(rng, i, tier):
    return optsim.generate(rng, PROF)


def execute(scn, ctx):
    optsim.Sim(scn, ctx, {"C03"}).run()
