From 2fe0d0d098a18f933842ca28d9a3bbda86d20eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 01/33] fix: allocate each asset at its own price whatever the
 ticker order

lp_portfolio paired weights and prices by position, so the allocation was
wrong when the two were in different orders, when prices had extra tickers,
or after greedy_portfolio had re-sorted the weights in place.
---
 pypfopt/discrete_allocation.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..2f1c62c 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -143,12 +143,12 @@ class DiscreteAllocation:
         :rtype: (dict, float)
         """
         # Sort in descending order of weight
-        self.weights.sort(key=lambda x: x[1], reverse=True)
+        weights = sorted(self.weights, key=lambda x: x[1], reverse=True)
 
         # If portfolio contains shorts
-        if self.weights[-1][1] < 0:
-            longs = {t: w for t, w in self.weights if w >= 0}
-            shorts = {t: -w for t, w in self.weights if w < 0}
+        if weights[-1][1] < 0:
+            longs = {t: w for t, w in weights if w >= 0}
+            shorts = {t: -w for t, w in weights if w < 0}
 
             # Make them sum to one
             long_total_weight = sum(longs.values())
@@ -192,7 +192,7 @@ class DiscreteAllocation:
         buy_prices = []
 
         # First round
-        for ticker, weight in self.weights:
+        for ticker, weight in weights:
             price = self.latest_prices[ticker]
             # Attempt to buy the lower integer number of shares, which could be zero.
             n_shares = int(weight * self.total_portfolio_value / price)
@@ -211,12 +211,12 @@ class DiscreteAllocation:
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
             current_weights /= current_weights.sum()
-            ideal_weights = np.array([i[1] for i in self.weights])
+            ideal_weights = np.array([i[1] for i in weights])
             deficit = ideal_weights - current_weights
 
             # Attempt to buy the asset whose current weights deviate the most
             idx = np.argmax(deficit)
-            ticker, weight = self.weights[idx]
+            ticker, weight = weights[idx]
             price = self.latest_prices[ticker]
 
             # If we can't afford this asset, search for the next highest deficit that we
@@ -231,7 +231,7 @@ class DiscreteAllocation:
                 if deficit[idx] < 0 or counter == 10:
                     break
 
-                ticker, weight = self.weights[idx]
+                ticker, weight = weights[idx]
                 price = self.latest_prices[ticker]
                 counter += 1
 
@@ -244,7 +244,7 @@ class DiscreteAllocation:
             available_funds -= price
 
         self.allocation = self._remove_zero_positions(
-            collections.OrderedDict(zip([i[0] for i in self.weights], shares_bought))
+            collections.OrderedDict(zip([i[0] for i in weights], shares_bought))
         )
 
         if verbose:
@@ -306,7 +306,8 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        # Prices in the order of the weights, for exactly the assets held
+        p = self.latest_prices.loc[[i[0] for i in self.weights]].values
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From 1db6f14d1e06c030662b833525e57ee5320a3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 02/33] fix: capm_return no longer renames the columns of the
 market returns passed in

---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From b20254e5817d3a4f651ae9b17afd43c0f8405344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 03/33] fix: bl_weights least-squares fallback solves the
 system that failed

The fallback used the matrix of the views instead of risk_aversion * cov.
---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From 3035a71c16014f2351b4f58feb2c7da3e8a2220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 04/33] fix: CLA forgets its turning points when computing them
 fails

A failure or interruption inside _solve left the turning points found so far
in place, and the next call took them for the complete solution.
---
 pypfopt/cla.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..f30dfb1 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -300,6 +300,14 @@ class CLA(base_optimizer.BaseOptimizer):
         return b / c
 
     def _solve(self):
+        try:
+            self._find_turning_points()
+        except BaseException:
+            # A partial list of turning points must not be used by later calls
+            self.w, self.ls, self.g, self.f = [], [], [], []
+            raise
+
+    def _find_turning_points(self):
         # Compute the turning points,free sets and weights
         f, w = self._init_algo()
         self.w.append(np.copy(w))  # store solution
-- 
2.43.0


From 454fd3b406f45390c37decac9af7d8d879ea37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 05/33] fix: plots lay out and save the figure of their own
 axes

With ax belonging to a figure other than the current one, the current figure
was laid out and written to filename instead.
---
 pypfopt/plotting.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..90cbc6d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -35,7 +35,7 @@ def _get_plotly():
         )
 
 
-def _plot_io(**kwargs):
+def _plot_io(ax=None, **kwargs):
     """
     Helper method to optionally save the figure to file.
 
@@ -50,9 +50,11 @@ def _plot_io(**kwargs):
     showfig = kwargs.get("showfig", False)
     dpi = kwargs.get("dpi", 300)
 
-    plt.tight_layout()
+    # The current figure need not be the one that was plotted on
+    fig = plt.gcf() if ax is None else ax.figure.canvas.figure
+    fig.tight_layout()
     if filename:
-        plt.savefig(fname=filename, dpi=dpi)
+        fig.savefig(filename, dpi=dpi)
     if showfig:  # pragma: no cover
         plt.show()
 
@@ -89,7 +91,7 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
         ax.set_yticklabels(matrix.index)
         plt.xticks(rotation=90)
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
 
     return ax
 
@@ -122,11 +124,10 @@ def plot_dendrogram(hrp, ax=None, show_tickers=True, **kwargs):
     if show_tickers:
         sch.dendrogram(hrp.clusters, labels=hrp.tickers, ax=ax, orientation="top")
         ax.tick_params(axis="x", rotation=90)
-        plt.tight_layout()
     else:
         sch.dendrogram(hrp.clusters, no_labels=True, ax=ax)
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
 
     return ax
 
@@ -378,7 +379,7 @@ def plot_efficient_frontier(
         ax.set_xlabel("Volatility")
         ax.set_ylabel("Return")
 
-        _plot_io(**kwargs)
+        _plot_io(ax, **kwargs)
     return ax
 
 
@@ -407,5 +408,5 @@ def plot_weights(weights, ax=None, **kwargs):
     ax.set_yticklabels(labels)
     ax.invert_yaxis()
 
-    _plot_io(**kwargs)
+    _plot_io(ax, **kwargs)
     return ax
-- 
2.43.0


From 75724e6d28142ddf6163e61b6736c9bed8a95e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 06/33] fix: frontier plot skips parameter values that are
 invalid

After the warning the previous portfolio was plotted once more, or the plot
failed when there was none.
---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 90cbc6d..0bc3cd5 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -256,6 +256,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 28b07b1edf142e63a4fb237345b953bbbfa39282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 07/33] fix: max_sharpe records its risk-free rate only when it
 succeeds

A refused or failed call changed the Sharpe ratio reported for the weights held.
---
 pypfopt/efficient_frontier/efficient_frontier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..ad58633 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -246,8 +246,6 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 "at least one of the assets must have an expected return exceeding the risk-free rate"
             )
 
-        self._risk_free_rate = risk_free_rate
-
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
@@ -289,6 +287,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
 
         self._solve_cvxpy_opt_problem()
         # Inverse-transform
+        self._risk_free_rate = risk_free_rate
         self.weights = (self._w.value / k.value).round(16) + 0.0
         return self._make_output_weights()
 
-- 
2.43.0


From 0e113860497151343e8d3230b24db755c440795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 08/33] fix: CVaR and CDaR reported are those of the weights
 held

portfolio_performance read the solver's variables, which deep copies share and
failed attempts overwrite, so that another object's solve or a failed one
changed (or removed) the risk reported for the weights held.
---
 pypfopt/efficient_frontier/efficient_cdar.py | 16 ++++++++++++----
 pypfopt/efficient_frontier/efficient_cvar.py | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..2a77c61 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -86,6 +86,7 @@ class EfficientCDaR(EfficientFrontier):
 
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
+        self._cdar_value = None
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
@@ -210,6 +211,16 @@ class EfficientCDaR(EfficientFrontier):
         self.add_constraint(lambda _: self._z >= 0)
         self.add_constraint(lambda _: self._u[1:] >= 0)
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # Kept with the weights: the solver's variables are shared with deep copies and
+        # overwritten by attempts that fail
+        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._z
+        )
+        self._cdar_value = cdar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -225,10 +236,7 @@ class EfficientCDaR(EfficientFrontier):
             self.weights, self.expected_returns, negative=False
         )
 
-        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._z
-        )
-        cdar_val = cdar.value
+        cdar_val = self._cdar_value
 
         if verbose:
             print("Expected annual return: {:.1f}%".format(100 * mu))
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..a9ac1f0 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -87,6 +87,7 @@ class EfficientCVaR(EfficientFrontier):
 
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
+        self._cvar_value = None
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns))
 
@@ -217,6 +218,16 @@ class EfficientCVaR(EfficientFrontier):
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # Kept with the weights: the solver's variables are shared with deep copies and
+        # overwritten by attempts that fail
+        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._u
+        )
+        self._cvar_value = cvar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -232,10 +243,7 @@ class EfficientCVaR(EfficientFrontier):
             self.weights, self.expected_returns, negative=False
         )
 
-        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._u
-        )
-        cvar_val = cvar.value
+        cvar_val = self._cvar_value
 
         if verbose:
             print("Expected annual return: {:.1f}%".format(100 * mu))
-- 
2.43.0


From 2ad31dad16e0192e5a39cfadff3220e1da6fe5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 09/33] fix: a refused market-neutral call leaves the weight
 bounds alone

The bounds were amended before add_constraint refused to change the solved
problem, so nonconvex_objective then used the amended bounds.
---
 pypfopt/base_optimizer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..c2b5751 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -216,8 +216,8 @@ class BaseConvexOptimizer(BaseOptimizer):
             test_bounds[0], (float, int)
         ):
             bounds = np.array(test_bounds, dtype=float)
-            self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-            self._upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
+            lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
+            upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
         else:
             # Otherwise this must be a pair.
             if len(test_bounds) != 2 or not isinstance(test_bounds, (tuple, list)):
@@ -229,15 +229,18 @@ class BaseConvexOptimizer(BaseOptimizer):
             # Replace None values with the appropriate +/- 1
             if np.isscalar(lower) or lower is None:
                 lower = -1 if lower is None else lower
-                self._lower_bounds = np.array([lower] * self.n_assets)
+                lower_bounds = np.array([lower] * self.n_assets)
                 upper = 1 if upper is None else upper
-                self._upper_bounds = np.array([upper] * self.n_assets)
+                upper_bounds = np.array([upper] * self.n_assets)
             else:
-                self._lower_bounds = np.nan_to_num(lower, nan=-1)
-                self._upper_bounds = np.nan_to_num(upper, nan=1)
-
-        self.add_constraint(lambda w: w >= self._lower_bounds)
-        self.add_constraint(lambda w: w <= self._upper_bounds)
+                lower_bounds = np.nan_to_num(lower, nan=-1)
+                upper_bounds = np.nan_to_num(upper, nan=1)
+
+        self.add_constraint(lambda w: w >= lower_bounds)
+        self.add_constraint(lambda w: w <= upper_bounds)
+        # Only now: add_constraint refuses to change a problem that has been solved
+        self._lower_bounds = lower_bounds
+        self._upper_bounds = upper_bounds
 
     def is_parameter_defined(self, parameter_name: str) -> bool:
         is_defined = False
-- 
2.43.0


From ed21d649f9bee1109815ff457374665888a9aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 10/33] fix: BlackLittermanModel reports performance of weights
 that were set

With set_weights instead of bl_weights the posterior returns were not computed,
and the return and Sharpe ratio were missing.
---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..9a0c1d6 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -497,6 +497,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         """
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         return base_optimizer.portfolio_performance(
             self.weights,
             self.posterior_rets,
-- 
2.43.0


From 2febdebaf4c31fe7b12f3f3319090f7970b717b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 11/33] fix: a failed HRP optimize keeps the clusters of the
 weights held

The clusters were replaced before the allocation that could still fail, so a
dendrogram no longer belonged to the weights.
---
 pypfopt/hierarchical_portfolio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/hierarchical_portfolio.py b/pypfopt/hierarchical_portfolio.py
index 52bfa17..f0e3af6 100644
--- a/pypfopt/hierarchical_portfolio.py
+++ b/pypfopt/hierarchical_portfolio.py
@@ -165,12 +165,13 @@ class HRPOpt(base_optimizer.BaseOptimizer):
         matrix = np.sqrt(np.clip((1.0 - corr) / 2.0, a_min=0.0, a_max=1.0))
         dist = ssd.squareform(matrix, checks=False)
 
-        self.clusters = sch.linkage(dist, linkage_method)
-        sort_ix = HRPOpt._get_quasi_diag(self.clusters)
+        clusters = sch.linkage(dist, linkage_method)
+        sort_ix = HRPOpt._get_quasi_diag(clusters)
         ordered_tickers = corr.index[sort_ix].tolist()
         hrp = HRPOpt._raw_hrp_allocation(cov, ordered_tickers)
         weights = collections.OrderedDict(hrp.sort_index())
         self.set_weights(weights)
+        self.clusters = clusters
         return weights
 
     def portfolio_performance(self, verbose=False, risk_free_rate=0.0, frequency=252):
-- 
2.43.0


From 81c9531afa170027fe8df9a224e8709ce575b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 12/33] fix: frontier plot skips parameter values whose solver
 fails

A SolverError for one value, unlike an infeasible one, lost the whole plot.
---
 pypfopt/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 0bc3cd5..43930f8 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -11,6 +11,7 @@ Currently implemented:
 
 import warnings
 
+import cvxpy as cp
 import numpy as np
 import scipy.cluster.hierarchy as sch
 
@@ -248,7 +249,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                 raise NotImplementedError(
                     "ef_param should be one of {'utility', 'risk', 'return'}"
                 )
-        except exceptions.OptimizationError:
+        except (exceptions.OptimizationError, cp.error.SolverError):
             continue
         except ValueError:
             warnings.warn(
-- 
2.43.0


From f41ec67935324132454c938159e65aadf7899ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 13/33] fix: max_sharpe honours linear constraints wherever
 their constant stands

The constraints are homogenised by multiplying constants by k, but only when one
side was the bare constant: w[3] - 0.3 >= 0 was solved as w[3] >= 0.3 / k, and
w[3] >= w[1] was refused.
---
 .../efficient_frontier/efficient_frontier.py  | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index ad58633..9a39c8b 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -261,8 +261,19 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             self._objective += obj
 
         new_constraints = []
-        # Must rebuild the constraints
+        # Must rebuild the constraints, scaling the constant part of both sides by k
+        # wherever it stands
         for constr in self._constraints:
+            if isinstance(
+                constr,
+                (cp.constraints.nonpos.Inequality, cp.constraints.zero.Equality),
+            ) and all(arg.is_affine() for arg in constr.args):
+                lhs, rhs = (self._scale_constant(arg, k) for arg in constr.args)
+                if isinstance(constr, cp.constraints.zero.Equality):
+                    new_constraints.append(lhs == rhs)
+                else:
+                    new_constraints.append(lhs <= rhs)
+                continue
             if isinstance(constr, cp.constraints.nonpos.Inequality):
                 # Either the first or second item is the expression
                 if isinstance(
@@ -291,6 +302,19 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         self.weights = (self._w.value / k.value).round(16) + 0.0
         return self._make_output_weights()
 
+    @staticmethod
+    def _scale_constant(expression, k):
+        """
+        Helper method: the affine ``expression`` with its constant part multiplied by ``k``.
+        """
+        previous = [(var, var.value) for var in expression.variables()]
+        for var, _ in previous:
+            var.value = np.zeros(var.shape)
+        constant = expression.value
+        for var, value in previous:
+            var.value = value
+        return expression + constant * (k - 1)
+
     def max_quadratic_utility(self, risk_aversion=1, market_neutral=False):
         r"""
         Maximise the given quadratic utility, i.e:
-- 
2.43.0


From e5fd5e1a88b9c31c7f47ca986be729617bfe01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 14/33] fix: missing weight bounds are not posed as infinite
 constants

A None bound became a constraint w >= -inf or w <= inf: ECOS returns zeros as an
optimum (outside the other bounds) or fails, and Clarabel panics.
---
 pypfopt/base_optimizer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index c2b5751..0a87aa1 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -236,8 +236,16 @@ class BaseConvexOptimizer(BaseOptimizer):
                 lower_bounds = np.nan_to_num(lower, nan=-1)
                 upper_bounds = np.nan_to_num(upper, nan=1)
 
-        self.add_constraint(lambda w: w >= lower_bounds)
-        self.add_constraint(lambda w: w <= upper_bounds)
+        # Solvers cannot cope with infinite constants, so missing bounds are not posed
+        has_lower, has_upper = np.isfinite(lower_bounds), np.isfinite(upper_bounds)
+        if has_lower.all():
+            self.add_constraint(lambda w: w >= lower_bounds)
+        elif has_lower.any():
+            self.add_constraint(lambda w: w[has_lower] >= lower_bounds[has_lower])
+        if has_upper.all():
+            self.add_constraint(lambda w: w <= upper_bounds)
+        elif has_upper.any():
+            self.add_constraint(lambda w: w[has_upper] <= upper_bounds[has_upper])
         # Only now: add_constraint refuses to change a problem that has been solved
         self._lower_bounds = lower_bounds
         self._upper_bounds = upper_bounds
-- 
2.43.0


From 262dcd193968c1d230dcfa4e2c85b25e1a4006bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 15/33] fix: lp_portfolio leftover is that of the whole shares
 allocated

The leftover was evaluated at the solver's not quite integer solution, cents away
from what the allocation returned leaves.
---
 pypfopt/discrete_allocation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 2f1c62c..6b544bb 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -329,6 +329,7 @@ class DiscreteAllocation:
             raise exceptions.OptimizationError("Please try greedy_portfolio")
 
         vals = np.rint(x.value).astype(int)
+        x.value = vals  # the leftover is that of the whole shares
         self.allocation = self._remove_zero_positions(
             collections.OrderedDict(
                 zip([i[0] for i in self.weights], [int(v) for v in vals])
-- 
2.43.0


From 1ba345995bbd9dae9887bef3e7475d97b3005965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 16/33] fix: CLA turning points where a weight meets its bound
 use that bound

---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index f30dfb1..fea48c0 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -364,6 +364,8 @@ class CLA(base_optimizer.BaseOptimizer):
                     f.append(i_out)
                 covarF, covarFB, meanF, wB = self._get_matrices(f)
                 covarF_inv = np.linalg.inv(covarF)
+                # The weight just bounded is at its boundary, not where it last was
+                wB = self._reduce_matrix(w, self._get_b(f), [0])
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
             for i in range(len(f)):
-- 
2.43.0


From 1e5cf438630c3d92309a9f70bccf5fe0a429a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 17/33] fix: CLA terminates when two weights meet their bounds
 at once

---
 pypfopt/cla.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index fea48c0..8f22bf9 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -356,6 +356,10 @@ class CLA(base_optimizer.BaseOptimizer):
             else:
                 # 4) decide lambda
                 if CLA._infnone(l_in) > CLA._infnone(l_out):
+                    # lambda never increases: rounding must not let the weight
+                    # bounded here be freed again at the same lambda for ever
+                    if self.ls[-1] is not None:
+                        l_in = min(l_in, self.ls[-1])
                     self.ls.append(l_in)
                     f.remove(i_in)
                     w[i_in] = bi_in  # set value at the correct boundary
-- 
2.43.0


From 44c7ce142a61b59c70a133ce234f371e75b4efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 18/33] fix: plot_covariance rotates the tick labels of its own
 axes

---
 pypfopt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 43930f8..2eb19b4 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -90,7 +90,7 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
         ax.set_xticklabels(matrix.index)
         ax.set_yticks(np.arange(0, matrix.shape[0], 1))
         ax.set_yticklabels(matrix.index)
-        plt.xticks(rotation=90)
+        ax.tick_params(axis="x", rotation=90)
 
     _plot_io(ax, **kwargs)
 
-- 
2.43.0


From ebbb6b2504c00929abfe7dc2fdccb5411bd34618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:31 +0000
Subject: [PATCH 19/33] fix: max_sharpe never holds the weights of its
 transformed problem

---
 pypfopt/base_optimizer.py                        | 8 ++++++--
 pypfopt/efficient_frontier/efficient_frontier.py | 5 ++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 0a87aa1..1128c85 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -290,11 +290,14 @@ class BaseConvexOptimizer(BaseOptimizer):
         if not was_updated:
             raise exceptions.InstantiationError("Parameter was not updated")
 
-    def _solve_cvxpy_opt_problem(self):
+    def _solve_cvxpy_opt_problem(self, scale=None):
         """
         Helper method to solve the cvxpy problem and check output,
         once objectives and constraints have been defined
 
+        :param scale: variable by which the solution must be divided to give weights,
+                      defaults to None (the solution is the weights)
+        :type scale: cp.Variable, optional
         :raises exceptions.OptimizationError: if problem is not solvable by cvxpy
         """
         try:
@@ -326,7 +329,8 @@ class BaseConvexOptimizer(BaseOptimizer):
             raise exceptions.OptimizationError(
                 "Solver status: {}".format(self._opt.status)
             )
-        self.weights = self._w.value.round(16) + 0.0  # +0.0 removes signed zero
+        solution = self._w.value if scale is None else self._w.value / scale.value
+        self.weights = solution.round(16) + 0.0  # +0.0 removes signed zero
         return self._make_output_weights()
 
     def add_objective(self, new_objective, **kwargs):
diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 9a39c8b..bb69190 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -296,11 +296,10 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
             k >= 0,
         ] + new_constraints
 
-        self._solve_cvxpy_opt_problem()
         # Inverse-transform
+        weights = self._solve_cvxpy_opt_problem(scale=k)
         self._risk_free_rate = risk_free_rate
-        self.weights = (self._w.value / k.value).round(16) + 0.0
-        return self._make_output_weights()
+        return weights
 
     @staticmethod
     def _scale_constant(expression, k):
-- 
2.43.0


From 6c78c1e8987527cc855761b49454662d759758df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:54 +0000
Subject: [PATCH 20/33] fix: max_sharpe raises when no portfolio attains the
 optimum

---
 pypfopt/base_optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 1128c85..1e103db 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -329,7 +329,15 @@ class BaseConvexOptimizer(BaseOptimizer):
             raise exceptions.OptimizationError(
                 "Solver status: {}".format(self._opt.status)
             )
-        solution = self._w.value if scale is None else self._w.value / scale.value
+        solution = self._w.value
+        if scale is not None:
+            # Without short limits the optimum may only be approached by ever larger
+            # positions: the solution of the transformed problem is then no portfolio
+            if not scale.value > 1e-5 * np.abs(solution).max():
+                raise exceptions.OptimizationError(
+                    "There is no optimal portfolio with weights that sum to one"
+                )
+            solution = solution / scale.value
         self.weights = solution.round(16) + 0.0  # +0.0 removes signed zero
         return self._make_output_weights()
 
-- 
2.43.0


From da8fc5620c0426a14552c74d378c0e6b82f811b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 21/33] fix: a market-neutral call drops only the bounds it
 amends

---
 pypfopt/efficient_frontier/efficient_frontier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bb69190..9cc7604 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -173,10 +173,10 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     "Market neutrality requires shorting - bounds have been amended",
                     RuntimeWarning,
                 )
+                bounds = (self._lower_bounds, self._upper_bounds)
                 self._map_bounds_to_constraints((-1, 1))
-                # Delete original constraints
-                del self._constraints[0]
-                del self._constraints[0]
+                # Delete original constraints, one for each side with any limit
+                del self._constraints[: sum(np.isfinite(b).any() for b in bounds)]
 
             self.add_constraint(lambda w: cp.sum(w) == 0)
         else:
-- 
2.43.0


From eeef404e2c2b469f4d40c8f778925443581b3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 22/33] fix: greedy allocation must not fail on the rounding of
 weights that use up the money

---
 pypfopt/discrete_allocation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 6b544bb..6aa30de 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -199,9 +199,12 @@ class DiscreteAllocation:
             cost = n_shares * price
             # As weights are all > 0 (long only) we always round down n_shares
             # so the cost is always <= simple weighted share of portfolio value,
-            # so we can not run out of funds just here.
-            assert cost <= available_funds, "Unexpectedly insufficient funds."
-            available_funds -= cost
+            # so we can not run out of funds just here, except by the rounding of
+            # the weights (e.g. clean_weights) or of floating-point arithmetic.
+            slack = 0.01 * self.total_portfolio_value
+            assert cost <= available_funds + slack, "Unexpectedly insufficient funds."
+            n_shares = min(n_shares, int(available_funds / price + 1e-9))
+            available_funds = max(available_funds - n_shares * price, 0)
             shares_bought.append(n_shares)
             buy_prices.append(price)
 
-- 
2.43.0


From b9fae31d322ee8932e552b6f956ab81c4aed6764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 23/33] fix: greedy allocation with integer prices

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 6aa30de..ff64ad3 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -213,7 +213,7 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From e13fe3d772483f8874abf65c09a1cedb235025b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 24/33] fix: LP allocation must not cost more than the money
 after rounding to whole shares

---
 pypfopt/discrete_allocation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index ff64ad3..f2b60cf 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -332,6 +332,12 @@ class DiscreteAllocation:
             raise exceptions.OptimizationError("Please try greedy_portfolio")
 
         vals = np.rint(x.value).astype(int)
+        # Within the solver's tolerance, the whole shares can cost more than there is:
+        # give back the share whose loss leaves the best allocation
+        while p @ vals > self.total_portfolio_value * (1 + 1e-9):
+            fewer = (vals - np.eye(n, dtype=int))[vals > 0]
+            deviation = np.abs(w * self.total_portfolio_value - fewer * p).sum(axis=1)
+            vals = fewer[np.argmin(deviation - fewer @ p)]
         x.value = vals  # the leftover is that of the whole shares
         self.allocation = self._remove_zero_positions(
             collections.OrderedDict(
-- 
2.43.0


From 67244764bbe16d7cafe8a534a5f4a6ff7b3ea83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 25/33] fix: an interruption while CLA recovers from a failure
 must not leave partial turning points

---
 pypfopt/cla.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 8f22bf9..e67e0c6 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -4,6 +4,8 @@ generates optimal portfolios using the Critical Line Algorithm as implemented
 by Marcos Lopez de Prado and David Bailey.
 """
 
+import copy
+
 import numpy as np
 import pandas as pd
 
@@ -300,12 +302,12 @@ class CLA(base_optimizer.BaseOptimizer):
         return b / c
 
     def _solve(self):
-        try:
-            self._find_turning_points()
-        except BaseException:
-            # A partial list of turning points must not be used by later calls
-            self.w, self.ls, self.g, self.f = [], [], [], []
-            raise
+        # Work on a copy: a partial list of turning points, left by a failure or an
+        # interruption anywhere, must not be used by later calls
+        done = copy.copy(self)
+        done.w, done.ls, done.g, done.f = [], [], [], []
+        done._find_turning_points()
+        self.ls, self.g, self.f, self.w = done.ls, done.g, done.f, done.w
 
     def _find_turning_points(self):
         # Compute the turning points,free sets and weights
-- 
2.43.0


From d356c6b6600fe990df2d5516985d2016447cbe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 26/33] fix: nonconvex_objective must raise when the scipy
 solver reports failure

---
 pypfopt/base_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 1e103db..781606a 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -502,6 +502,7 @@ class BaseConvexOptimizer(BaseOptimizer):
         :type solver: string
         :param initial_guess: the initial guess for the weights, shape (n,) or (n, 1)
         :type initial_guess: np.ndarray
+        :raises OptimizationError: if the solver does not report success
         :return: asset weights that optimize the custom objective
         :rtype: OrderedDict
         """
@@ -531,6 +532,10 @@ class BaseConvexOptimizer(BaseOptimizer):
             bounds=bounds,
             constraints=final_constraints,
         )
+        if not result["success"]:
+            raise exceptions.OptimizationError(
+                "Solver status: {}".format(result["message"])
+            )
         self.weights = result["x"]
         return self._make_output_weights()
 
-- 
2.43.0


From 63a53c9452c91d0cf65dd4acfc210c7f48d88a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 27/33] fix: CLA with integer bounds truncated weights to
 integers

---
 pypfopt/cla.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index e67e0c6..48560a8 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -73,17 +73,21 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+            # dtype: with integer bounds the weights would be truncated to integers
+            self.lB = np.array([b[0] for b in weight_bounds], dtype=float)
+            self.uB = np.array([b[1] for b in weight_bounds], dtype=float)
+            self.lB, self.uB = self.lB.reshape(-1, 1), self.uB.reshape(-1, 1)
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], dtype=float)
+                self.lB = self.lB.reshape(self.mean.shape)
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                self.uB = np.array(weight_bounds[1], dtype=float)
+                self.uB = self.uB.reshape(self.mean.shape)
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From 66312962b619ef6a704d9e01bc3457b8e7fee347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 28/33] fix: short_ratio 0 must allocate no shorts instead of
 raising

---
 pypfopt/discrete_allocation.py | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index f2b60cf..574eba3 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -169,14 +169,16 @@ class DiscreteAllocation:
             )
             long_alloc, long_leftover = da1.greedy_portfolio()
 
-            if verbose:
-                print("\nAllocating short sub-portfolio...")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.greedy_portfolio()
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                if verbose:
+                    print("\nAllocating short sub-portfolio...")
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.greedy_portfolio()
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
@@ -293,14 +295,16 @@ class DiscreteAllocation:
             )
             long_alloc, long_leftover = da1.lp_portfolio(solver=solver)
 
-            if verbose:
-                print("\nAllocating short sub-portfolio:")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                if verbose:
+                    print("\nAllocating short sub-portfolio:")
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
-- 
2.43.0


From 341766e6f51cf0159c279073fc3254ff128209c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 29/33] fix: pair of bounds for two assets was read as the
 bounds of each asset

---
 pypfopt/base_optimizer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 781606a..1c24c07 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -211,10 +211,19 @@ class BaseConvexOptimizer(BaseOptimizer):
         :return: bounds suitable for cvxpy
         :rtype: tuple pair of np.ndarray
         """
-        # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
-        ):
+        # If it is a collection with the right length, assume they are all bounds
+        # (unless, for two assets, it is a pair of single bounds or of arrays).
+        first = test_bounds[0] if len(test_bounds) > 0 else None
+        is_pair = (
+            first is None
+            or np.isscalar(first)
+            or (
+                isinstance(first, np.ndarray)
+                and isinstance(test_bounds, (tuple, list))
+                and len(test_bounds) == 2
+            )
+        )
+        if len(test_bounds) == self.n_assets and not is_pair:
             bounds = np.array(test_bounds, dtype=float)
             lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
             upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
-- 
2.43.0


From a546220c69c7dffdb4f149805dd21f3d1db94c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 30/33] fix: CLA read a pair of bound arrays for two assets as
 the bounds of each asset

---
 pypfopt/cla.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 48560a8..605b817 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -70,9 +70,13 @@ class CLA(base_optimizer.BaseOptimizer):
         self.cov_matrix = np.asarray(cov_matrix)
 
         # Bounds
-        if len(weight_bounds) == len(self.mean) and not isinstance(
-            weight_bounds[0], (float, int)
-        ):
+        is_pair = isinstance(weight_bounds[0], (float, int)) or (
+            # for two assets, lower and upper bounds rather than the bounds of each
+            isinstance(weight_bounds, tuple)
+            and len(weight_bounds) == 2
+            and isinstance(weight_bounds[0], (list, np.ndarray))
+        )
+        if len(weight_bounds) == len(self.mean) and not is_pair:
             # dtype: with integer bounds the weights would be truncated to integers
             self.lB = np.array([b[0] for b in weight_bounds], dtype=float)
             self.uB = np.array([b[1] for b in weight_bounds], dtype=float)
-- 
2.43.0


From 5e61bdde0199c2d7be312481160b6a6e5d51bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 31/33] fix: semivariance, CVaR and CDaR reports failed without
 expected returns, which are optional

---
 pypfopt/efficient_frontier/efficient_cdar.py  | 19 ++++++++++++++-----
 pypfopt/efficient_frontier/efficient_cvar.py  | 13 +++++++++----
 .../efficient_semivariance.py                 | 18 ++++++++++++------
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index 2a77c61..59be9df 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,13 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        # Expected returns are optional when optimising for risk only
+        num_assets = (
+            returns.shape[1] if expected_returns is None else len(expected_returns)
+        )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((num_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
@@ -232,14 +236,19 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None  # expected returns are optional when optimising for risk only
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cdar_val = self._cdar_value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index a9ac1f0..0e4638c 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -239,14 +239,19 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None  # expected returns are optional when optimising for risk only
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cvar_val = self._cvar_value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..0552688 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -261,19 +261,25 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None  # expected returns are optional when optimising for risk only
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        sortino_ratio = None if mu is None else (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if sortino_ratio is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From 14fb2c89c516ce70807688da455a4334ca998552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 32/33] fix: market-implied prior for covariance arrays and
 market-cap arrays, as documented

---
 pypfopt/black_litterman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 9a0c1d6..f1b6db2 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -47,6 +47,9 @@ def market_implied_prior_returns(
             RuntimeWarning,
         )
     mcaps = pd.Series(market_caps)
+    if isinstance(cov_matrix, pd.DataFrame) and isinstance(market_caps, np.ndarray):
+        # An array has no labels: it is in the order of the covariance matrix
+        mcaps.index = cov_matrix.columns
     mkt_weights = mcaps / mcaps.sum()
     # Pi is excess returns so must add risk_free_rate to get return.
     return risk_aversion * cov_matrix.dot(mkt_weights) + risk_free_rate
@@ -272,7 +275,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From ba2d741f04bef46e251fe090a01a735a644fabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 33/33] fix: CLA frontier with few points per segment lost its
 turning points, or was empty

---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 605b817..b9dbc45 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -445,6 +445,8 @@ class CLA(base_optimizer.BaseOptimizer):
         if not self.w:
             self._solve()
 
+        # However few the points, the turning points are among them
+        points = max(points, 2 * len(self.w))
         mu, sigma, weights = [], [], []
         # remove the 1, to avoid duplications
         a = np.linspace(0, 1, points // len(self.w))[:-1]
-- 
2.43.0

