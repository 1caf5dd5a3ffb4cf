"""C12: reported performance always describes the weights currently held."""
from .. import desk, optsim

ID = "C12"
RULE = ("seeded histories mixing successful and failed solves, set_weights, verbose reports whose printing fails, clean_weights with odd arguments; after every operation the "
        "report is recomputed in numpy from the weights held, and the figures printed compared with those returned; " + desk.RULE + "; distinct = event-log digest")
RUNS = {"quick": 5000, "thorough": 60000}
BATCH = 15
PROF = {"fault_rates": [0, 0.25, 0.5], "objects": 2, "len": (6, 14), "copies": 0.4,
        "weights": {"solve": 10, "bad": 1.0, "setw": 2.0, "nonconvex": 0.6, "con": 0.5, "convex": 0.5, "perf": 5.0, "clean": 3.0}}


def directed():
    """The recorded findings K1 and K2, exercised in every check."""
    def new(cls):
        return {"op": "new", "id": 0, "cls": cls, "bounds": {"fmt": "default", "lo": [0.0] * 3, "hi": [1.0] * 3}, "solver": "CLARABEL", "fmt": "pandas", "verbose": False, "beta": 0.9}

    def scn(name, ops):
        return {"name": name, "cfg": {"data_seed": 164895733, "n": 3, "T": 50, "style": "sorted"}, "ops": ops}

    out = []
    for cls in ("CVAR", "CDAR"):
        out.append(scn("K1-" + cls, [new(cls), {"op": "solve", "obj": 0, "m": "efficient_risk", "mn": False, "f": 1.8, "faults": []}]))
        out.append(scn("K2-" + cls, [new(cls), {"op": "nonconvex", "obj": 0, "kind": "var", "budget": True}]))
    return out


def generate(rng, i, tier):
    if i % 4 == 3:
        return desk.generate(rng)
    return optsim.generate(rng, PROF)


def execute(scn, ctx):
    if scn.get("desk"):
        return desk.execute(scn, ctx)
    optsim.Sim(scn, ctx, {"C12"}).run()


def shrink(scn):
    if scn.get("desk"):
        yield from desk.shrink(scn)
