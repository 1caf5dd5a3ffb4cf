"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })


EFD = "pypfopt/efficient_frontier/"
EFS = [EFD + "efficient_frontier.py", EFD + "efficient_semivariance.py", EFD + "efficient_cvar.py", EFD + "efficient_cdar.py"]
BO = "pypfopt/base_optimizer.py"

prop("C01", "Only a solved problem yields weights; a failed call changes nothing",
     "A convex optimisation call (mean-variance, semivariance, CVaR, CDaR, custom convex objective) returns weights only if, within that very call, the solver reported an optimal (or optimal-inaccurate) solution; on every other outcome (infeasible, unbounded, iteration limit, solver error, interruption, out of memory) it raises; nonconvex_objective likewise when scipy's optimiser reports failure. "
     "A call that raises leaves the weights held by the optimiser, its clean_weights() and its portfolio_performance() exactly as they were before the call.",
     ["fault_sequences", "histories"],
     "every sequence of optimisation calls and every solver outcome injected at any of the solves they make",
     "The tests see only healthy solves and a few infeasible targets on fresh objects; they never make the solver fail at a chosen solve of a history, nor look at the object after a failed call.",
     [BO] + EFS,
     [("status gate before weights are stored", BO + ":_solve_cvxpy_opt_problem"),
      ("performance derived from the held weights", EFD + "*.py:portfolio_performance")],
     ["return value or exception of each optimisation call", "weights / clean_weights() / portfolio_performance() after it"],
     [("weights", "last successful solution", BO), ("_risk_free_rate", "rate of the last successful max_sharpe", EFS[0])])

prop("C02", "Every portfolio returned honours the bounds and constraints posed",
     "Every portfolio returned by a convex optimiser, at whatever point of a history of calls, failures, refused calls and copies, satisfies within solver tolerance: each asset's weight bounds, the budget (weights sum to one, or to zero when market neutral), every constraint and sector constraint added by the user (linear ones for max_sharpe), and the target return or target risk passed in that call. "
     "The dictionary returned, the optimiser's weights attribute and the ticker order always agree. "
     "The same bounds and budget also govern nonconvex_objective with its default settings.",
     ["histories", "fault_sequences", "configurations"],
     "every class, method, bound format, constraint set and history of calls with solver faults in between",
     "The tests check the sum and bounds of single solves of one fixed dataset; they do not check added constraints after re-solves, failures, bound amendments or on copies.",
     [BO] + EFS,
     [("bounds and added constraints", BO + ":_map_bounds_to_constraints, add_constraint, add_sector_constraints"),
      ("budget and market neutrality", EFS[0] + ":_make_weight_sum_constraint"),
      ("target as parametrised constraint", BO + ":update_parameter_value")],
     ["weights returned by each call, checked in plain numpy against the specification given by the caller"])

prop("C03", "Re-solving equals starting afresh; structural changes are refused",
     "After any history of calls on one optimiser (other targets, failed or infeasible solves, queries, refused calls), each optimisation call that returns gives the optimum a newly built optimiser with the same inputs, bounds, constraints and objectives would give for that call's arguments. "
     "A target whose solve failed does not stop a later feasible target of the same parametrised method (efficient_risk, efficient_return, max_quadratic_utility) from succeeding. "
     "Once a problem has been solved, adding a constraint or an objective, switching to another convex method, or changing market neutrality raises an error instead of altering the problem.",
     ["histories", "fault_sequences"],
     "every history of optimisation calls, parameter updates, failures and refused calls on one object",
     "Tests re-solve one object twice with one target change; the histories (order of targets, failures in between, refused calls, flag changes) are unbounded.",
     [BO] + EFS,
     [("parameter re-use", BO + ":is_parameter_defined, update_parameter_value"),
      ("structure check by id", BO + ":_solve_cvxpy_opt_problem"),
      ("market-neutral check", EFS[0] + ":_validate_market_neutral")],
     ["optimal value and weights of each call against a reference model and a fresh object", "exceptions of refused calls"],
     [("_opt", "posed problem", BO), ("_max_return_value", "cached feasibility limit", EFS[0])])

prop("C04", "Optimisers are isolated from each other, in any interleaving",
     "What one optimiser object does (adding constraints or objectives, solving, failing, changing weights, being discarded) never alters what another one returns or reports: each behaves as if it were alone. "
     "This holds for objects built from shared input data and for copies made with deepcopy(), however their operations are interleaved, and for separately built objects also when their calls run concurrently in different threads under any schedule.",
     ["schedules", "histories"],
     "every interleaving of the operations of several objects, and every thread schedule at the granularity of library source lines",
     "Tests run one object at a time; none exercises copies side by side, and none runs two threads.",
     [BO, "pypfopt/cla.py", "pypfopt/hierarchical_portfolio.py", "pypfopt/black_litterman.py", "pypfopt/discrete_allocation.py"] + EFS,
     [("all state lives on the instance", "pypfopt/*.py"), ("deepcopy separates lists", BO + ":deepcopy")],
     ["results and reports of every object, against the same operations run alone"])

prop("C05", "Data passed in by the caller is never modified",
     "No call into the library (estimators, optimisers, Black-Litterman, hierarchical and critical-line optimisers, discrete allocation, plotting) ever modifies an object the caller passed in: values, index, columns, names, keys, order and length of every frame, series, array, dict and list stay as they were. "
     "This holds at every instant during the call as seen by another thread reading the same data, and afterwards whether the call succeeded, failed or was interrupted.",
     ["schedules", "fault_sequences", "inputs"],
     "every public call, every argument format, every instant inside the call, every failure injected into it",
     "No test compares the inputs before and after a call, let alone during it or after a failure.",
     ["pypfopt/expected_returns.py", "pypfopt/risk_models.py", "pypfopt/black_litterman.py", "pypfopt/discrete_allocation.py", "pypfopt/hierarchical_portfolio.py", "pypfopt/cla.py", "pypfopt/plotting.py", BO] + EFS,
     [("work on copies", "pypfopt/expected_returns.py:capm_return"), ("weights list copied", "pypfopt/discrete_allocation.py:__init__")],
     ["fingerprints of all caller-owned objects at scheduler steps inside calls and after them"])

prop("C06", "A save that returns has written exactly the clean weights",
     "When save_weights_to_file returns, the file at that path holds exactly the current clean_weights() (every ticker, in order, values reading back equal) in the format named by the extension, whatever the file held before and whatever short writes or interrupted system calls occurred, and no handle to it is left open. "
     "If opening, writing, flushing or closing fails (disk full, I/O error, missing directory) the call raises, leaves the optimiser unchanged, and a retry after the fault clears succeeds. "
     "A save that is refused (no weights yet, unsupported extension) leaves any existing file untouched.",
     ["fault_sequences", "crash_points", "histories"],
     "every file format and ticker set, every I/O fault at every write, every earlier content, every sequence of saves by several optimisers",
     "One test writes each format once to a healthy disk.",
     [BO],
     [("context-managed write of cleaned weights", BO + ":save_weights_to_file")],
     ["simulated disk content and open handles when the call returns or raises"])

prop("C07", "Discrete allocations balance and never depend on earlier calls",
     "In any sequence of greedy and LP allocations on one DiscreteAllocation, with solver failures in between, each allocation returned equals the one a new object would give for the same arguments, in whichever order tickers appear in the weights and in the prices; a solver failure raises. "
     "Every allocation holds whole numbers of shares, positive for long and negative for short weights, none of them zero, costs no more than the capital of its long and short parts (total value, plus the short proceeds when reinvesting; short ratio times total value), and its cost plus the leftover equals that capital. "
     "Both algorithms finish within a bounded number of steps, the greedy one always with an allocation (prices may be integers, and weights and prices may use up the money exactly), and the LP allocation attains the minimum of its objective (total absolute deviation from the ideal dollar amounts plus leftover cash). Figures printed when verbose are those of the allocation returned.",
     ["histories", "fault_sequences", "inputs"],
     "every weight/price assignment and ordering, every sequence of allocation calls, every solver outcome",
     "Tests call one algorithm once per object on one price set where weights and prices happen to be in the same order.",
     ["pypfopt/discrete_allocation.py"],
     [("greedy rounds", "pypfopt/discrete_allocation.py:greedy_portfolio"), ("integer programme", "pypfopt/discrete_allocation.py:lp_portfolio")],
     ["returned allocation and leftover", "allocation attribute"],
     [("weights", "list of (ticker, weight), re-ordered by greedy_portfolio", "pypfopt/discrete_allocation.py")])

prop("C08", "Critical-line results do not depend on call order or past failures",
     "On one CLA object, in any order and number of max_sharpe, min_volatility, efficient_frontier and performance calls, and after any earlier call that failed or was interrupted inside the solver, each successful call returns what a new object returns; a failure is never followed by a result computed from partial state. "
     "For well-conditioned inputs these results are the minimum-variance and the maximum-Sharpe portfolios within the weight bounds, the frontier points are feasible, mean-variance efficient and reach from the maximum-return to the minimum-variance portfolio, and the algorithm terminates with a result.",
     ["histories", "fault_sequences", "crash_points"],
     "every order of calls, every linear-algebra failure or interruption at any step of the critical-line iteration",
     "Tests use one call per object on healthy data; the cached turning points are never left half built.",
     ["pypfopt/cla.py"],
     [("lazily cached turning points", "pypfopt/cla.py:_solve")],
     ["weights, frontier points and performance after each call"],
     [("w, ls, g, f", "turning points", "pypfopt/cla.py")])

prop("C09", "Black-Litterman posteriors survive any query order and solver fallback",
     "From one BlackLittermanModel, bl_returns, bl_cov, bl_weights/optimize and portfolio_performance give the same answers in any order and repetition, with set_weights in between, and whether the direct linear solve succeeds or fails as singular and the least-squares fallback is used; any other numerical failure raises and does not spoil later queries. "
     "The answers are those of the Black-Litterman formulas for the prior, views, uncertainties and tau given, and the implied weights solve (risk aversion x covariance) w = posterior returns, scaled to sum to one.",
     ["histories", "fault_sequences"],
     "every order of queries, every choice of prior/view/uncertainty inputs, a singular-matrix or other failure at any of the linear solves",
     "The fallback branches are never taken by the tests in a way that checks their result, and tests query in one order.",
     ["pypfopt/black_litterman.py"],
     [("cached intermediates", "pypfopt/black_litterman.py:bl_returns, bl_cov"), ("least-squares fallback", "pypfopt/black_litterman.py:bl_weights")],
     ["posterior returns, covariance, weights, performance"],
     [("_tau_sigma_P, _A, posterior_cov, posterior_rets", "caches", "pypfopt/black_litterman.py")])

prop("C10", "Plots show and save exactly what was asked, despite failures",
     "A frontier plot shows, for each parameter value whose optimisation succeeds, exactly that portfolio's risk and return in the order of the values, and no point for a value that is infeasible, invalid or whose solve failed; one failed value never prevents the plot or distorts other points. "
     "Every plotting function draws on, lays out and saves the axes it was given (or the current ones if none), never another open figure, whichever figure happens to be current. "
     "A failed save raises.",
     ["fault_sequences", "histories"],
     "every range of parameters, every subset of failing solves, every state of open and current figures, every I/O fault while saving",
     "Tests count artists on one open figure with all solves succeeding.",
     ["pypfopt/plotting.py"],
     [("per-point optimisation with failures skipped", "pypfopt/plotting.py:_plot_ef"), ("figure output", "pypfopt/plotting.py:_plot_io")],
     ["line and marker data of the axes", "which figure reaches savefig", "layout of other figures"])

prop("C11", "Results depend on the inputs alone and leave the process as it was",
     "For the same inputs every estimator, optimiser, allocation and plot gives the same result whatever the wall clock, random-number generator state, string-hash seed, working directory, time zone or previous unrelated use of the library in the process (solver timing heuristics pinned; min_cov_determinant, which samples, with the random_state passed in). "
     "Using the library leaves process-wide state as it found it: random-number generators, numpy error and print settings, pandas options, matplotlib defaults, warning filters, working directory, environment variables, threads and open files.",
     ["configurations", "histories", "schedules"],
     "every environment (clock, seeds, hash order, directory, earlier activity) in which the same inputs can be processed",
     "Tests run in one environment with one hash seed and never compare process state.",
     ["pypfopt/risk_models.py", "pypfopt/discrete_allocation.py", "pypfopt/cla.py", "pypfopt/hierarchical_portfolio.py", BO] + EFS,
     [("no clock, RNG or set-order dependence", "pypfopt/*.py"), ("random_state passed through", "pypfopt/risk_models.py:min_cov_determinant")],
     ["results of one workload under differing simulated environments", "process-wide state before and after"])

prop("C12", "Reported performance always describes the weights currently held",
     "At any point of a history of any optimiser (convex ones, HRP, CLA, Black-Litterman), portfolio_performance reports the expected return, risk (volatility; semideviation; CVaR or CDaR of the historical returns) and ratio of exactly the weights the optimiser currently holds (from the last successful optimisation or set_weights) under its own inputs, with the risk-free rate given, or that of the last successful max_sharpe on that object; with no weights it raises; figures printed are those returned. "
     "Asking, verbosely or not, even if printing fails, changes nothing; clean_weights likewise always derives from the held weights: same tickers and order, entries below the cutoff zeroed, the rest rounded.",
     ["histories", "fault_sequences"],
     "every history of solves, failed solves, set_weights, copies and queries on every optimiser class",
     "Tests query once right after one successful solve.",
     [BO, "pypfopt/cla.py", "pypfopt/hierarchical_portfolio.py", "pypfopt/black_litterman.py"] + EFS,
     [("performance computed from weights", BO + ":portfolio_performance"), ("stored risk-free rate", EFS[0] + ":portfolio_performance")],
     ["returned tuples against numpy recomputation from the held weights"])

prop("C13", "Estimators keep no memory and are safe to share",
     "For given data and options each return or risk estimator call (module functions and CovarianceShrinkage methods, the latter in any order on one object) returns the same estimate as an isolated first call, however many calls, on this or other data, successful or failed, came before, and however calls from several threads on the same data are interleaved. "
     "A covariance estimate is symmetric and positive semidefinite up to rounding with the assets' labels, also when the quick positive-definiteness test fails for a matrix; if a numerical or optional dependency fails in any other way the call raises.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence and thread interleaving of estimator calls, every numerical failure injected",
     "Each test calls an estimator once on one dataset.",
     ["pypfopt/risk_models.py", "pypfopt/expected_returns.py"],
     [("pure functions over copies", "pypfopt/expected_returns.py"), ("PSD repair", "pypfopt/risk_models.py:fix_nonpositive_semidefinite")],
     ["returned series and matrices, shrinkage constant"],
     [("delta", "shrinkage constant of the last call", "pypfopt/risk_models.py")])

prop("C14", "Hierarchical risk parity results do not depend on earlier calls",
     "On one HRPOpt, in any sequence of optimize calls with any linkage methods, failures inside the clustering, set_weights, performance queries and dendrogram plots, each successful optimize returns what a new object returns, namely the hierarchical-risk-parity weights of the data: positive, summing to one, one per ticker; a failed optimize raises and leaves weights and clusters unchanged. "
     "The clusters held and the dendrogram drawn are those of the last successful optimize, each leaf labelled with its own ticker.",
     ["histories", "fault_sequences"],
     "every sequence of optimisations, failures, weight changes and plots",
     "Tests call optimize once per object.",
     ["pypfopt/hierarchical_portfolio.py", "pypfopt/plotting.py"],
     [("recomputed clustering", "pypfopt/hierarchical_portfolio.py:optimize")],
     ["weights, clusters, dendrogram leaf labels"],
     [("clusters", "linkage of the last optimize", "pypfopt/hierarchical_portfolio.py")])

pure = "Tests pin the values for one dataset; the property quantifies over all inputs."
prop("N01", "Return estimators compute their documented formulas",
     "mean_historical_return, ema_historical_return and capm_return give the documented annualised figures for every price or return history, including leading gaps, compounding on or off, and any frequency.",
     ["inputs"], "all price histories and options", pure, ["pypfopt/expected_returns.py"],
     [("formulas", "pypfopt/expected_returns.py")], ["returned series"])
prop("N02", "Risk models compute their documented formulas",
     "Sample, semi-, exponential and shrunk covariances equal their documented definitions for every return history and annualisation frequency.",
     ["inputs"], "all return histories and options", pure, ["pypfopt/risk_models.py"],
     [("formulas", "pypfopt/risk_models.py")], ["returned matrix"])
prop("N03", "Prices/returns and covariance/correlation conversions are inverse",
     "prices_from_returns undoes returns_from_prices up to the starting price (also for log returns), and corr_to_cov undoes cov_to_corr.",
     ["inputs"], "all price histories and matrices", pure, ["pypfopt/expected_returns.py", "pypfopt/risk_models.py"],
     [("conversions", "pypfopt/expected_returns.py")], ["returned frames"])
prop("N04", "Equivalent input formats give equal results",
     "Passing expected returns, covariances, returns or bounds as pandas objects, arrays or lists with the same content leads to the same portfolio.",
     ["inputs"], "all formats and contents", pure, [BO] + EFS, [("input validation", EFS[0])], ["weights"])
prop("N05", "Relabelling or reordering assets permutes the portfolio",
     "Permuting the assets in all inputs permutes the optimal weights of every optimiser correspondingly, and renaming tickers only renames keys.",
     ["inputs"], "all permutations of all inputs", pure, [BO, "pypfopt/hierarchical_portfolio.py"] + EFS,
     [("ticker order", BO + ":_make_output_weights")], ["weights"])
prop("N06", "Objective functions agree as numbers and as expressions",
     "Each function in objective_functions gives, for an array of weights, the value its cvxpy expression takes at those weights, with sign conventions as documented.",
     ["inputs"], "all weights and parameters", pure, ["pypfopt/objective_functions.py"],
     [("dual evaluation", "pypfopt/objective_functions.py:_objective_value")], ["returned value"])
prop("N07", "Market-implied prior and risk aversion follow their formulas",
     "market_implied_prior_returns and market_implied_risk_aversion give delta*Sigma*w_mkt + r_f and (R - r_f)/sigma^2 for every market history and capitalisation.",
     ["inputs"], "all market data", pure, ["pypfopt/black_litterman.py"], [("formulas", "pypfopt/black_litterman.py")], ["returned values"])
prop("N08", "Critical line and convex optimiser agree",
     "For every positive-definite covariance and box bounds CLA and EfficientFrontier find the same minimum-variance and maximum-Sharpe portfolios.",
     ["inputs"], "all well-posed inputs", pure, ["pypfopt/cla.py", EFS[0]], [("two algorithms for one problem", "pypfopt/cla.py")], ["weights"])
prop("N09", "Invalid arguments are rejected",
     "Every documented invalid argument (wrong type, wrong shape, out-of-range parameter, unknown method name) raises the documented exception.",
     ["inputs"], "all invalid arguments", pure, [BO] + EFS, [("validation", EFS[0])], ["exception raised"])
prop("N10", "Idzorek view confidences interpolate between prior and view",
     "With Idzorek's method a confidence of 100% moves the posterior of a single absolute view to the view, 0% leaves the prior, and intermediate confidences move it monotonically.",
     ["inputs"], "all confidences and views", pure, ["pypfopt/black_litterman.py"], [("closed form", "pypfopt/black_litterman.py:idzorek_method")], ["posterior returns"])
prop("N11", "Latest prices are each asset's last known price",
     "get_latest_prices returns for every asset its most recent non-missing price.",
     ["inputs"], "all price frames", pure, ["pypfopt/discrete_allocation.py"], [("forward fill", "pypfopt/discrete_allocation.py:get_latest_prices")], ["returned series"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
