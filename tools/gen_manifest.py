"""Writes /verif/MANIFEST.json from the list of checks below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded operation histories with solver faults and interruptions at the solver seam; solver-status and snapshot oracles", "solver answers of the real solvers are trusted only as far as their reported status"),
    "C02": ("seeded operation histories with solver faults, refusals and copies; every returned portfolio checked against the constraints posed", "tolerance 1e-3 on constraints; answers that violate the posed problem itself (solver's fault) are skipped and counted"),
    "C03": ("seeded operation histories with failures; refinement against a newly built optimiser in the same simulated world", "weights compared through the objective value where the optimum is not unique"),
    "C04": ("seeded interleavings of several optimisers (sequential and threads under a seeded scheduler switching at library lines and solver seams), each compared with its run alone", "thread switches happen at library source lines and seams, not inside C code"),
    "C05": ("seeded calls over the whole public API with faults and interruptions; caller-owned data fingerprinted at sampled library lines during each call and after it", "instants are library source lines, not machine instructions"),
    "C06": ("simulated disk (short, torn, refused, interrupted writes, failing open/close) under seeded save histories; files read back and compared", "power loss is outside the promise (the library never syncs)"),
    "C07": ("seeded sequences of greedy and LP allocations with solver faults; balance invariants, pristine-process reference, independent integer program", "integer solvers trusted to their gap"),
    "C08": ("seeded call orders with linear-algebra faults and interruptions at every inversion; pristine-process reference and convex reference model; step-bounded termination", "reference optima from an independent convex solve, tolerance 1e-4"),
    "C09": ("seeded query orders with linear-solver faults; closed-form reference model", "closed-form reference evaluated in floating point, relative tolerance 1e-6"),
    "C10": ("seeded plotting histories with solver and disk faults and several open figures; recorded artists and saved figures compared with reference points", "rendering itself (matplotlib, plotly) is trusted"),
    "C11": ("seeded perturbation of clock, RNG, hash seed, working directory, time zone and process history; results and process state compared", "solver wall-clock heuristics pinned"),
    "C12": ("seeded operation histories with solver and print faults; reported performance recomputed from the weights held", "recorded findings K1, K2 are tolerated only under their signature"),
    "C13": ("seeded call histories and thread interleavings over the estimators with linear-algebra and import faults; pristine-process reference", "thread switches happen at library source lines"),
    "C14": ("seeded call histories with clustering faults; pristine-process reference and an independent HRP reference model", "scipy linkage trusted"),
}
PURE = {
    "N01": "pure function of its arguments: no schedule, clock, I/O, fault or history can change the outcome, so simulation adds nothing (its history, sharing and failure aspects are C05, C11, C13)",
    "N02": "pure function of its arguments: no schedule, clock, I/O, fault or history for the formula to depend on (histories, sharing and failures of the same code are C13)",
    "N03": "pure functions composed: no schedule, fault or history involved",
    "N04": "relation between two fault-free calls of pure code; nothing for a simulator to schedule or fail",
    "N05": "relation between two fault-free calls of pure code; nothing for a simulator to schedule or fail",
    "N06": "pure functions; nothing for a simulator to schedule or fail",
    "N07": "pure functions; nothing for a simulator to schedule or fail",
    "N08": "relation between two fault-free calls of pure code over all inputs (C08 compares CLA with the convex optimum along simulated histories only)",
    "N09": "argument validation is a pure function of the arguments (refusals inside histories are part of C01-C03, C06)",
    "N10": "monotonicity of a pure function of its arguments; nothing for a simulator to schedule or fail",
    "N11": "pure function of its argument; nothing for a simulator to schedule or fail",
}
checks, na = [], []
for pid, (tech, note) in CHECKS.items():
    if os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {pid}", "evidence_file": f"evidence/{pid}.json",
                       "technique": T + tech, "level": "exploration", "level_note": "Seeded search, not exhaustive: held on every simulated run explored. " + note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
na += [{"property": k, "reason": v} for k, v in PURE.items()]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import pypfopt, cvxpy, scipy, matplotlib\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (solver, linear algebra, clustering, disk, stdout, imports, line-level scheduling) is installed from /verif before pypfopt is imported."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
