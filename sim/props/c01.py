"""C01: only a solved problem yields weights; a failed call changes nothing."""
from .. import optsim

ID = "C01"
RULE = ("seeded histories of up to 4 optimiser objects (EF, semivariance, CVaR, CDaR) with a failing solver status, solver error, iteration limit with a partial iterate, interruption "
        "or out-of-memory at chosen solves, or an interruption at a chosen source line of the library; non-trivial = at least one optimisation call executed, distinct = event-log digest")
RUNS = {"quick": 4000, "thorough": 60000}
BATCH = 15
PROF = {"fault_rates": [0.3, 0.5, 0.7], "objects": 2, "len": (4, 12), "line": 0.12, "weights": {"solve": 12, "bad": 1.5, "setw": 1.2}}


def generate(rng, i, tier):
    return optsim.generate(rng, PROF)


def execute(scn, ctx):
    optsim.Sim(scn, ctx, {"C01"}).run()
