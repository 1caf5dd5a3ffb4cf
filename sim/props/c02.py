"""C02: every portfolio returned honours the bounds and constraints posed."""
from .. import optsim

ID = "C02"
RULE = ("seeded histories of up to 4 optimiser objects with user constraints in many syntactic forms, sector constraints, list/array/None bounds, market-neutral calls, refused "
        "calls, copies, failing solves between successful ones; after each returned portfolio every posed requirement is evaluated in plain numpy; distinct = event-log digest")
RUNS = {"quick": 5000, "thorough": 60000}
BATCH = 15
PROF = {"fault_rates": [0, 0.15, 0.35], "objects": 2, "len": (4, 12), "copies": 0.4, "weights": {"solve": 12, "bad": 1.2, "setw": 0.2, "nonconvex": 0.8, "con": 1.2, "convex": 0.6, "perf": 0.5}}


def generate(rng, i, tier):
    return optsim.generate(rng, PROF)


def execute(scn, ctx):
    optsim.Sim(scn, ctx, {"C02"}).run()
