From ae740ec60b6d21726d3aa48380a7a29d1564875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 01/86] fix: NormalTrunc prior density of mu is uniform on
 [l,h], scale h-l

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..6828042 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -193,7 +193,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 82023d47fd162678d942c4342004d19fdffca068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 02/86] fix: Geometric.incorporate raises ValueError for an
 invalid value, not TypeError

---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 3c9dfc18f260c9dbd0d2051a207a1e74c039a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 03/86] fix: Crp rejects non-integer values instead of
 truncating them

---
 src/primitives/crp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/primitives/crp.py b/src/primitives/crp.py
index fae7620..ea174bd 100644
--- a/src/primitives/crp.py
+++ b/src/primitives/crp.py
@@ -44,7 +44,10 @@ class Crp(DistributionGpm):
 
     def incorporate(self, rowid, observation, inputs=None):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
-        x = int(observation[self.outputs[0]])
+        x = observation[self.outputs[0]]
+        if not x % 1 == 0:
+            raise ValueError('Invalid Crp: %s' % str(x))
+        x = int(x)
         self.N += 1
         if x not in self.counts:
             self.counts[x] = 0
@@ -63,7 +66,10 @@ class Crp(DistributionGpm):
         assert not inputs
         assert not constraints
         assert targets.keys() == self.outputs
-        x = int(targets[self.outputs[0]])
+        x = targets[self.outputs[0]]
+        if not x % 1 == 0:
+            return -float('inf')
+        x = int(x)
         if rowid in self.data:
             return 0 if self.data[rowid] == x else -float('inf')
         return Crp.calc_predictive_logp(x, self.N, self.counts, self.alpha)
-- 
2.43.0


From 6ac914c12dc4473011d1285b1d537a496ddf203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 04/86] fix: column Gibbs weighs each view in the order of its
 CRP table

The data log probabilities were listed in insertion order of the views and
the CRP tables in sorted order, so states whose views were not inserted in
increasing order reassigned columns with the wrong weights, and installed a
column proposal prepared for another view.
---
 src/crosscat/state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..6eae643 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,14 +1061,16 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
-        # Compute logp of the dim under existing views.
+        # Compute logp of the dim under existing views, in the order of the
+        # tables returned by the CRP (which need not be insertion order).
+        views_existing = sorted(self.views)
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in views_existing
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(views_existing, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
@@ -1098,7 +1100,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = views_existing.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From 60227c65598779109633eb0dfd6d3e956ff7a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 05/86] fix: a column given hyperparameters from its grids
 passes them to its clusters

Dim.transition_hyper_grids drew initial hyperparameters for the column and
its fresh cluster only; clusters that already held rows kept the defaults.
---
 src/mixtures/dim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..aa1c68a 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -181,6 +181,8 @@ class Dim(CGpm):
         if not self.hypers:
             for h in self.hyper_grids:
                 self.hypers[h] = self.rng.choice(self.hyper_grids[h])
+            for k in self.clusters:
+                self.clusters[k].set_hypers(self.hypers)
         self.aux_model = self.create_aux_model()
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From fecfd941664f7749d8829c4d3e7aa9ea18c1e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 06/86] fix: Dim.set_hypers reaches the fresh cluster and keeps
 its own copy

---
 src/mixtures/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index aa1c68a..d35dadb 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -207,9 +207,10 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
             model.set_hypers(hypers)
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From 94f196a2f14903f6209410eb8570b5fd146ad29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 07/86] fix: State.simulate draws columns of different views
 independently

Samples of each view came out sorted by cluster and were joined by position,
so every batch of samples carried spurious dependence across views.
---
 src/crosscat/sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..7c1cf17 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -20,8 +20,6 @@ cgpm.crosscat, avoiding overhead of recursive implementations using the
 importance network on the sub-cgpms that comprise cgpm.crosscat.State.
 '''
 
-from itertools import chain
-
 import numpy as np
 
 from cgpm.primitives.crp import Crp
@@ -95,8 +93,10 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = {k: _simulate_row(view, targets, k, counts[k]) for k in counts}
+    # Return the samples in the order of the drawn clusters, so that samples
+    # from different views may be joined position by position.
+    return [next(samples[k]) for k in ks]
 
 
 def _logpdf_row(view, targets, cluster):
-- 
2.43.0


From 2bdc690dd8b633fb4336fac0d89290b971b593ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 08/86] fix: View.simulate returns samples in the order their
 clusters were drawn

---
 src/mixtures/view.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..739ce6d 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,8 +14,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import itertools
-
 from math import isnan
 
 import numpy as np
@@ -363,8 +361,10 @@ class View(CGpm):
         if exposed:
             samples = [[merged(l, {self.outputs[0]: k}) for l in s]
                 for s, k in zip(samples, counts)]
+        # Restore the order in which the clusters were drawn.
+        samples = {k: iter(s) for k, s in zip(counts, samples)}
+        result = [next(samples[k]) for k in Ks]
         # Return 1 sample if N is None, otherwise a list.
-        result = list(itertools.chain.from_iterable(samples))
         return result[0] if unwrap_result else result
 
 
-- 
2.43.0


From 6c5596843caf4d06f5de8a4a814ed22cb16274a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 09/86] fix: mh_sample reflects its proposal at the ends of the
 support

---
 src/utils/sampling.py | 44 ++++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..ca83afd 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -76,33 +76,20 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
-    log_correction = lambda x, x_prime, jstd: 0
-
-    # Is proposal symmetric? The folded normal is, but taking % 1?
-    if D[0] == 0 and D[1] == 1:
-        def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
-            if x_prime > 1.0:
-                x_prime = x_prime % 1
-            return x_prime
-    elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
-    else:
-        def jumpfun(x, jstd):
-            MAX_TRIALS = 1000
-            for _ in xrange(MAX_TRIALS):
-                x_prime = rng.normal(x, jstd)
-                if D[0] < x_prime < D[1]:
-                    return x_prime
-            raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
-        def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+    # Normal jump, reflected at the ends of the support (so that the proposal is
+    # symmetric and stays inside).
+    lower, upper = D[0] > -float('inf'), D[1] < float('inf')
+    def jumpfun(x, jstd):
+        x_prime = rng.normal(x, jstd)
+        if lower and upper:
+            width = D[1] - D[0]
+            y = (x_prime - D[0]) % (2. * width)
+            return D[0] + min(y, 2. * width - y)
+        if lower:
+            return D[0] + fabs(x_prime - D[0])
+        if upper:
+            return D[1] - fabs(D[1] - x_prime)
+        return x_prime
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,9 +98,6 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
-
         if log(rng.rand()) < logp_prime - logp:
             x = x_prime
             logp = logp_prime
-- 
2.43.0


From 4e598589ab0f9a4ff2dc26c491c0ba5f7d36ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 10/86] fix: slice_sample discards burn samples, as documented,
 not burn-1

---
 src/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index ca83afd..7e395b9 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -183,7 +183,7 @@ def slice_sample(
                 else:
                     a = x_prime;
 
-        if num_iters >= burn and num_iters%lag == 0:
+        if num_iters > burn and num_iters%lag == 0:
             samples.append(x)
 
     if num_samples == 1:
-- 
2.43.0


From db3d25b03d649c8ee4d8eb2e3108b44122474fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 11/86] fix: NormalTrunc.transition_params targets the
 posterior of mu and sigma

---
 src/primitives/normal_trunc.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 6828042..ee24bc3 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -113,17 +113,26 @@ class NormalTrunc(DistributionGpm):
         n_samples = 100
 
         # Transition mu.
-        fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+        def fn_logpdf_mu(mu):
+            return (
+                NormalTrunc.calc_log_likelihood(
+                    self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+                - self.N * NormalTrunc.calc_log_normalizer(
+                    mu, self.sigma, self.l, self.h))
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
             burn=n_samples, rng=self.rng)
 
         # Transition sigma.
-        fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+        def fn_logpdf_sigma(sigma):
+            return (
+                NormalTrunc.calc_log_likelihood(
+                    self.N, self.sum_x, self.sum_x_sq, sigma, self.mu)
+                + NormalTrunc.calc_log_prior(
+                    self.mu, sigma, self.alpha, self.beta, self.l, self.h)
+                - self.N * NormalTrunc.calc_log_normalizer(
+                    self.mu, sigma, self.l, self.h))
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From 89a360945408d9c4bd369fa697441556a1907458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 12/86] fix: NormalTrunc keeps a given mean of zero

---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index ee24bc3..2db6f40 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -51,7 +51,7 @@ class NormalTrunc(DistributionGpm):
         if params is None: params = {}
         self.mu = params.get('mu', None)
         self.sigma = params.get('sigma', 1)
-        if not self.mu or not self.sigma:
+        if self.mu is None or not self.sigma:
             self.mu, self.sigma = NormalTrunc.sample_parameters(
                 self.alpha, self.beta, self.l, self.h, self.rng)
 
-- 
2.43.0


From 56bdc82cf4317fc6a35c908d01c840403656fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 13/86] fix: NormalTrunc.simulate works for an interval narrow
 against sigma

---
 src/primitives/normal_trunc.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 2db6f40..52458c5 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -88,13 +88,10 @@ class NormalTrunc(DistributionGpm):
         DistributionGpm.simulate(self, rowid, targets, constraints, inputs, N)
         if rowid in self.data:
             return {self.outputs[0]: self.data[rowid]}
-        max_iters = 1000
-        for i in xrange(max_iters):
-            x = self.rng.normal(loc=self.mu, scale=self.sigma)
-            if self.l <= x <= self.h:
-                return {self.outputs[0]: x}
-        else:
-            raise RuntimeError('NormalTrunc failed to rejection sample.')
+        lo, hi = norm.cdf(
+            [self.l, self.h], loc=self.mu, scale=self.sigma)
+        x = norm.ppf(self.rng.uniform(lo, hi), loc=self.mu, scale=self.sigma)
+        return {self.outputs[0]: min(max(x, self.l), self.h)}
 
     def logpdf_score(self):
         data_logp = NormalTrunc.calc_log_likelihood(
-- 
2.43.0


From b8d96484e1e9800195bae214002d61cf5c7cb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 14/86] fix: parse_schema reads categorical(k=..) from the
 type, not the column name

---
 src/utils/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..a323434 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,10 +90,11 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -103,11 +104,10 @@ def parse_schema(schema, dataframe):
                 assert len(mapping) == 2
             else:
                 # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From 2cec1b06eb5e670f56a5603e623d2a03b30cc730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 15/86] fix: parse_schema leaves the caller's dataframe alone

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index a323434..0edac1e 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -80,7 +80,7 @@ def parse_schema(schema, dataframe):
 
     >>> S = cgpm.crosscat.state.State(D, cctypes=cctypes, distargs=distargs)
     """
-    dataframe.replace('NA', np.nan, inplace=True)
+    dataframe = dataframe.replace('NA', np.nan)
     D = []
     cctypes, distargs = [], []
     valmap = dict()
-- 
2.43.0


From 6ee2149f75ebb521a27ad41930095cf1522a4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 16/86] fix: logp_crp_fresh divides an integer alpha exactly

---
 src/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/general.py b/src/utils/general.py
index d81a96d..3ac584e 100644
--- a/src/utils/general.py
+++ b/src/utils/general.py
@@ -116,7 +116,7 @@ def logp_crp_gibbs(Nk, Z, i, alpha, m):
 def logp_crp_fresh(N, Nk, alpha, m=1):
     """Compute the CRP probabilities for a fresh customer i=N+1, with
     table counts Nk, total customers N=sum(Nk), and m auxiliary tables."""
-    log_crp_numer = np.log(Nk + [alpha/m]*m)
+    log_crp_numer = np.log(Nk + [alpha/float(m)]*m)
     logp_crp_denom = log(N + alpha)
     return log_crp_numer - logp_crp_denom
 
-- 
2.43.0


From 48199ed79e8ac2391e6d122808a28245a12aeee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 17/86] fix: State._populate_constraints includes the first
 column of a recorded row

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 6eae643..5dc6ec3 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -435,7 +435,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From e595de99bc5f785d533cb21817accb9eff780886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 18/86] fix: marginalised conditions of mutual information
 follow the fixed ones

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5dc6ec3..70dea26 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -672,7 +672,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From ed4f61b4301c60a0abbfcd0faea888af65715b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 19/86] fix: a state constructed with conditional columns is
 composite

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 70dea26..5a8c079 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From 38bf477bd27bda09a537fec8ccb41caf63458f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 20/86] fix: Dim.incorporate adds no cluster for a refused
 observation

---
 src/mixtures/dim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index d35dadb..d185e9d 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -96,14 +96,16 @@ class Dim(CGpm):
         if rowid in self.Zr or rowid in self.Zi:
             raise ValueError('rowid already incorporated: %d.' % rowid)
         k, inputs_cluster, valid = self.preprocess(observation, None, inputs)
-        if k not in self.clusters:
-            self.clusters[k] = self.aux_model
-            self.aux_model = self.create_aux_model()
+        # Incorporate first, since an invalid observation is an error.
+        cluster = self.clusters.get(k, self.aux_model)
         if valid:
-            self.clusters[k].incorporate(rowid, observation, inputs_cluster)
+            cluster.incorporate(rowid, observation, inputs_cluster)
             self.Zr[rowid] = k
         else:
             self.Zi[rowid] = k
+        if k not in self.clusters:
+            self.clusters[k] = cluster
+            self.aux_model = self.create_aux_model()
 
     def unincorporate(self, rowid):
         if rowid in self.Zi:
-- 
2.43.0


From ad76573ec62e2822deca3b2b6578446273112f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 21/86] fix: View.incorporate undoes a refused observation

---
 src/mixtures/view.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 739ce6d..5895ef8 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -160,11 +160,22 @@ class View(CGpm):
         """
         k = observation.get(self.outputs[0], 0)
         self.crp.incorporate(rowid, {self.outputs[0]: k}, {-1: 0})
-        for d in self.dims:
-            self.dims[d].incorporate(
-                rowid,
-                observation={d: observation[d]},
-                inputs=self._get_input_values(rowid, self.dims[d], k))
+        incorporated = []
+        try:
+            for d in self.dims:
+                self.dims[d].incorporate(
+                    rowid,
+                    observation={d: observation[d]},
+                    inputs=self._get_input_values(rowid, self.dims[d], k))
+                incorporated.append(d)
+        except Exception:
+            # Leave no trace of a refused observation.
+            self.crp.unincorporate(rowid)
+            for d in incorporated:
+                self.dims[d].unincorporate(rowid)
+                if k not in self.Nk():
+                    del self.dims[d].clusters[k]
+            raise
         # If the user did not specify a cluster assignment, sample one.
         if self.outputs[0] not in observation:
             self.transition_rows(rows=[rowid])
-- 
2.43.0


From 856bc5d4e8804d8dffe7cf8d6c3877db0cc9b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 22/86] fix: State.incorporate undoes a refused observation

---
 src/crosscat/state.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5a8c079..76498f2 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -279,12 +279,22 @@ class State(CGpm):
         if self.hypothetical(rowid):
             rowid = self.n_rows()-1
         # Tell the views.
-        for v in self.views:
-            query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
-            crp_v = self.views[v].outputs[0]
-            cluster_v = {crp_v: observation[crp_v]} if crp_v in observation\
-                else {}
-            self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+        incorporated = []
+        try:
+            for v in self.views:
+                query_v = {d: self.X[d][rowid] for d in self.views[v].dims}
+                crp_v = self.views[v].outputs[0]
+                cluster_v = {crp_v: observation[crp_v]} \
+                    if crp_v in observation else {}
+                self.views[v].incorporate(rowid, gu.merged(cluster_v, query_v))
+                incorporated.append(v)
+        except Exception:
+            # Leave no trace of a refused observation.
+            for v in incorporated:
+                self.views[v].unincorporate(rowid)
+            for c in self.outputs:
+                self.X[c].pop()
+            raise
         # Validate.
         self._check_partitions()
 
-- 
2.43.0


From cfff654aa16db661d00f14532e1b9b1f90250006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 23/86] fix: force_cell undoes a refused observation

---
 src/crosscat/state.py | 14 +++++++++++---
 src/mixtures/view.py  |  7 ++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 76498f2..2112763 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -325,9 +325,17 @@ class State(CGpm):
             self.X[col][rowid] = value
         queries = vu.partition_list(
             {c: self.Zv(c) for c in observation}, observation)
-        for view_id, view_variables in queries.iteritems():
-            observation_v = {c: observation[c] for c in view_variables}
-            self.views[view_id].force_cell(rowid, observation_v)
+        try:
+            for view_id, view_variables in queries.iteritems():
+                observation_v = {c: observation[c] for c in view_variables}
+                self.views[view_id].force_cell(rowid, observation_v)
+        except Exception:
+            # Leave the cells of a refused observation missing.
+            missing = {c: float('nan') for c in observation}
+            for col in missing:
+                self.X[col][rowid] = missing[col]
+                self.view_for(col).force_cell(rowid, {col: missing[col]})
+            raise
 
     # --------------------------------------------------------------------------
     # Schema updates.
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 5895ef8..4e3b33e 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -197,7 +197,12 @@ class View(CGpm):
         for d in observation:
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
-            self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            try:
+                self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+            except Exception:
+                # Leave the cell of a refused observation missing.
+                self.dims[d].incorporate(rowid, {d: float('nan')}, inputs)
+                raise
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0


From 764700052fa81b9580c91795f047ee7e38683558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 24/86] fix: a refused update_cctype leaves the old column in
 place

---
 src/mixtures/view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 4e3b33e..16d0dee 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -226,11 +226,10 @@ class View(CGpm):
                 'stattypes': [self.dims[i].cctype for i in inputs],
                 'statargs': [self.dims[i].get_distargs() for i in inputs]
             }
-        D_old = self.dims[col]
         D_new = Dim(
             outputs=[col], inputs=[self.outputs[0]]+inputs,
             cctype=cctype, distargs=distargs_dim, rng=self.rng)
-        self.unincorporate_dim(D_old)
+        # Replaces the old Dim, unless the data is invalid for the new cctype.
         self.incorporate_dim(D_new)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From e44f343149b56a052d2047fdd16ced7c12492187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 25/86] fix: incorporate_dim keeps its own copy of the data

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 2112763..6d6a983 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -205,7 +205,7 @@ class State(CGpm):
                 % inputs)
         # Append new output to outputs.
         col = outputs[0]
-        self.X[col] = T
+        self.X[col] = list(T)
         self.set_outputs(self.outputs + [col])
         # If v unspecified then transition the col.
         transition = [col] if v is None else []
-- 
2.43.0


From dce364d9a17c8864d1f8a15350404f0df71e87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 26/86] fix: incorporate_dim undoes a refused dim

---
 src/crosscat/state.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 6d6a983..8839a97 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -203,6 +203,9 @@ class State(CGpm):
             raise ValueError(
                 'Cannot incorporate dim with inputs: %s.'
                 % inputs)
+        if v is None and self.Cd:
+            raise ValueError(
+                'Specify the view of a dim in a state with dependencies.')
         # Append new output to outputs.
         col = outputs[0]
         self.X[col] = list(T)
@@ -218,15 +221,23 @@ class State(CGpm):
             self._append_view(view, v_add)
         # Create the dimension.
         # XXX Does not handle conditional models; consider moving to view?
-        D = Dim(
-            outputs=outputs,
-            inputs=[view.outputs[0]],
-            cctype=cctype,
-            distargs=distargs,
-            rng=self.rng
-        )
-        D.transition_hyper_grids(self.X[col])
-        view.incorporate_dim(D)
+        try:
+            D = Dim(
+                outputs=outputs,
+                inputs=[view.outputs[0]],
+                cctype=cctype,
+                distargs=distargs,
+                rng=self.rng
+            )
+            D.transition_hyper_grids(self.X[col])
+            view.incorporate_dim(D)
+        except Exception:
+            # Leave no trace of a refused dim.
+            if not view.dims:
+                del self.views[v_add]
+            del self.X[col]
+            self.set_outputs([i for i in self.outputs if i != col])
+            raise
         self.crp.incorporate(col, {self.crp_id: v_add}, {-1:0})
         # Transition.
         self.transition_dims(cols=transition)
-- 
2.43.0


From 2f75c405ba009b1d91f2706fbb637d664f5ffd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 27/86] fix: unincorporate_dim drops the constraints on the
 removed column

---
 src/crosscat/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 8839a97..3763714 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -259,6 +259,10 @@ class State(CGpm):
         delete = self.Nv(v_del) == 1
         self.views[v_del].unincorporate_dim(d_del)
         self.crp.unincorporate(col)
+        # Drop constraints on the col.
+        self.Ci = [pair for pair in self.Ci if col not in pair]
+        self.Cd = [[c for c in block if c != col] for block in self.Cd]
+        self.Cd = [block for block in self.Cd if len(block) > 1]
         # Clear a singleton.
         if delete:
             self._delete_view(v_del)
-- 
2.43.0


From 720611eef28fb4c15743018afb6230d4f7075503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:02 +0000
Subject: [PATCH 28/86] fix: State refuses a column partition that violates its
 constraints

---
 src/crosscat/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 3763714..e7d77dd 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -121,6 +121,9 @@ class State(CGpm):
         else:
             for c, z in Zv.iteritems():
                 self.crp.incorporate(c, {self.crp_id: z}, {-1:0})
+            if not vu.validate_crp_constrained_partition(
+                    self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri):
+                raise ValueError('Zv violates the constraints: %s' % (Zv,))
 
         assert len(self.Zv()) == len(self.outputs)
 
-- 
2.43.0


From 24d5e592f4b78420b56912b4c81a5fbb3160ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 29/86] fix: metadata of states and views does not alias live
 hypers, data and diagnostics

---
 src/crosscat/state.py | 6 +++---
 src/mixtures/view.py  | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e7d77dd..1efec09 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -170,7 +170,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         self._loom_path = loom_path
@@ -1242,7 +1242,7 @@ class State(CGpm):
         metadata['suffstats'] = []
         for dim in self.dims():
             metadata['cctypes'].append(dim.cctype)
-            metadata['hypers'].append(dim.hypers)
+            metadata['hypers'].append(dict(dim.hypers))
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
@@ -1262,7 +1262,7 @@ class State(CGpm):
             metadata['view_alphas'].append((v, view.alpha()))
 
         # Diagnostic data.
-        metadata['diagnostics'] = self.diagnostics
+        metadata['diagnostics'] = copy.deepcopy(self.diagnostics)
 
         # Hooked CGPMs.
         metadata['hooked_cgpms'] = dict()
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 16d0dee..1735e33 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
+
 from math import isnan
 
 import numpy as np
@@ -581,7 +583,7 @@ class View(CGpm):
         metadata = dict()
 
         # Dataset.
-        metadata['X'] = self.X
+        metadata['X'] = copy.deepcopy(self.X)
         metadata['outputs'] = self.outputs
 
         # View partition data.
@@ -596,7 +598,7 @@ class View(CGpm):
         metadata['suffstats'] = []
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
-            metadata['hypers'].append(self.dims[c].hypers)
+            metadata['hypers'].append(dict(self.dims[c].hypers))
             metadata['distargs'].append(self.dims[c].distargs)
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
@@ -610,7 +612,7 @@ class View(CGpm):
         if rng is None:
             rng = gu.gen_rng(0)
         return cls(
-            metadata.get('X'),
+            copy.deepcopy(metadata.get('X')),
             outputs=metadata.get('outputs', None),
             inputs=metadata.get('inputs', None),
             alpha=metadata.get('alpha', None),
-- 
2.43.0


From a65bc84d9269cf75b0e843309b618172e432c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 30/86] fix: State.from_metadata keeps the tokens of composed
 cgpms

---
 src/crosscat/state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 1efec09..8b66b1d 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1309,7 +1309,12 @@ class State(CGpm):
                 importlib.import_module(cgpm_metadata['factory'][0]),
                 cgpm_metadata['factory'][1])
             cgpm = builder.from_metadata(cgpm_metadata, rng=rng)
-            state.compose_cgpm(cgpm)
+            state.hooked_cgpms[int(token)] = cgpm
+        if state.hooked_cgpms:
+            state.build_network()
+            state._update_is_composite()
+            state.token_generator = itertools.count(
+                start=max(state.hooked_cgpms) + 1)
         return state
 
     @classmethod
-- 
2.43.0


From 90af15143d542b09da0aa76e178d89b3fcf7f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 31/86] fix: an independence of other than two customers is a
 ValueError

---
 src/utils/validation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index 7f2dfaf..f606aad 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -37,6 +37,10 @@ def validate_dependency_constraints(N, Cd, Ci):
     if N is None:
         N = 1e10
     counts = {}
+    for pair in Ci:
+        # Ci entries are tuples only.
+        if len(pair) != 2:
+            raise ValueError('Independencies require two customers.')
     for block in Cd:
         # Every constraint must be more than one customer.
         if len(block) == 1:
@@ -56,9 +60,6 @@ def validate_dependency_constraints(N, Cd, Ci):
             if pair[0] in block and pair[1] in block:
                 raise ValueError('Contradictory customer independence.')
     for pair in Ci:
-        # Ci entries are tuples only.
-        if len(pair) != 2:
-            raise ValueError('Independencies require two customers.')
         if N <= pair[0] or N <= pair[1]:
             raise ValueError('Independence customer of out range.')
         # Dummy case.
-- 
2.43.0


From cc857789366ebd00e548fd7db3d0da7806abd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 32/86] fix: constraints on negative customers are refused

---
 src/utils/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index f606aad..f800ea8 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -47,7 +47,7 @@ def validate_dependency_constraints(N, Cd, Ci):
             raise ValueError('Single customer in dependency constraint.')
         for col in block:
             # Every column must have correct index.
-            if N <= col:
+            if not 0 <= col < N:
                 raise ValueError('Dependence customer out of range.')
             # Every column must appear once only.
             if col not in counts:
@@ -60,7 +60,7 @@ def validate_dependency_constraints(N, Cd, Ci):
             if pair[0] in block and pair[1] in block:
                 raise ValueError('Contradictory customer independence.')
     for pair in Ci:
-        if N <= pair[0] or N <= pair[1]:
+        if not all(0 <= col < N for col in pair):
             raise ValueError('Independence customer of out range.')
         # Dummy case.
         if pair[0] == pair[1]:
-- 
2.43.0


From 92af9151a349694acce860538bab6fa87fb0f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 33/86] fix: row independences of a column without row
 dependences are validated

---
 src/utils/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/validation.py b/src/utils/validation.py
index f800ea8..2a8b1ae 100644
--- a/src/utils/validation.py
+++ b/src/utils/validation.py
@@ -93,9 +93,9 @@ def validate_crp_constrained_input(N, Cd, Ci, Rd, Ri):
     # First validate outer Cd, Ci.
     validate_dependency_constraints(N, Cd, Ci)
     # Validate all inner Rd, Ri.
-    for c in Rd:
-        col_dep = Rd[c]
-        row_dep = Ri.get(c,{})
+    for c in set(Rd) | set(Ri):
+        col_dep = Rd.get(c, [])
+        row_dep = Ri.get(c, [])
         validate_dependency_constraints(None, col_dep, row_dep)
     # For each block in Cd, validate their Rd, Ri are compatible.
     for block in Cd:
-- 
2.43.0


From 6907a9f3b20f1c64e64d9b214337e79b4229740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 34/86] fix: _check_partitions looks constrained columns up by
 name

---
 src/crosscat/state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 8b66b1d..fe4ad98 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1218,8 +1218,7 @@ class State(CGpm):
             self.views[v]._check_partitions()
         # Dependence constraints.
         assert vu.validate_crp_constrained_partition(
-            [self.Zv(c) for c in self.outputs], self.Cd, self.Ci,
-            self.Rd, self.Ri)
+            self.Zv(), self.Cd, self.Ci, self.Rd, self.Ri)
 
     # --------------------------------------------------------------------------
     # Serialize
-- 
2.43.0


From 34d977fa4ec6fde633f1aaec4a490c680215eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 35/86] fix: State.logpdf of a composed variable for a recorded
 row

---
 src/crosscat/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index fe4ad98..8e745e3 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -494,7 +494,8 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(not np.isnan(self.X[q][rowid])
+                    for q in targets if self.has_output(q)):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From 4df7012e39efef3d26046b453ff5bbdf17710f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 36/86] fix: parallel_map reports any result that cannot be
 pickled

---
 src/utils/parallel_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index a84ec1f..b663938 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -15,7 +15,6 @@
 # You should have received a copy of the GNU General Public License
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
-import cPickle as pickle
 import os
 import struct
 import traceback
@@ -53,7 +52,7 @@ def parallel_map(f, l, parallelism=None):
             os.write(retq_wr, le32enc(childno))
             try:
                 outq_wr.send((i, ok, fx))
-            except pickle.PicklingError:
+            except Exception:       # whatever pickle makes of fx
                 outq_wr.send((i, False, traceback.format_exc()))
 
     def process_output(fl, ctr, output):
-- 
2.43.0


From 8bdd0ba905b0211afdcc5132be82e8265e97fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 37/86] fix: parallel_map waits for the workers it terminates

---
 src/utils/parallel_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index b663938..f3a50b7 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -110,6 +110,7 @@ def parallel_map(f, l, parallelism=None):
         for p in process:
             if p.is_alive():
                 p.terminate()
+                p.join()
         raise
 
     finally:
-- 
2.43.0


From 693ddb201ec868a963159807f52c2b068cc2952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 38/86] fix: parallel_map fails, rather than hangs, when a
 worker dies

---
 src/utils/parallel_map.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index f3a50b7..fab1e97 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -16,6 +16,7 @@
 # along with Venture.  If not, see <http://www.gnu.org/licenses/>.
 
 import os
+import select
 import struct
 import traceback
 
@@ -40,6 +41,11 @@ def parallel_map(f, l, parallelism=None):
     # Per-process action: grab an input from the input queue, compute,
     # toss the output in the output queue.
     def process_input(childno, inq_rd, outq_wr, retq_wr):
+        # Only the worker itself keeps its output queue open for writing, so
+        # that its death shows there.
+        for _outq_rd, other_wr in outq:
+            if other_wr is not outq_wr:
+                other_wr.close()
         while True:
             i = inq_rd.recv()
             if i is None:
@@ -55,6 +61,13 @@ def parallel_map(f, l, parallelism=None):
             except Exception:       # whatever pickle makes of fx
                 outq_wr.send((i, False, traceback.format_exc()))
 
+    # Wait for a worker to complete a task, failing if one died instead.
+    def next_worker():
+        while not select.select([retq_rd], [], [], .1)[0]:
+            if not all(p.is_alive() for p in process):
+                raise RuntimeError('Subprocess died.')
+        return le32dec(os.read(retq_rd, 4))
+
     def process_output(fl, ctr, output):
         (i, ok, fx) = output
         if not ok:
@@ -77,6 +90,8 @@ def parallel_map(f, l, parallelism=None):
         # Start the worker processes.
         for p in process:
             p.start()
+        for _outq_rd, outq_wr in outq:
+            outq_wr.close()
 
         # Queue up the tasks one by one.  If the input queue is full,
         # process an output item to free up a worker process and try
@@ -88,13 +103,13 @@ def parallel_map(f, l, parallelism=None):
         for j, i in zip(xrange(ncpu), iterator):
             inq[j][1].send(i)
         for i in iterator:
-            j = le32dec(os.read(retq_rd, 4))
+            j = next_worker()
             process_output(fl, ctr, outq[j][0].recv())
             inq[j][1].send(i)
 
         # Process all the remaining output items.
         while 0 < ctr[0]:
-            j = le32dec(os.read(retq_rd, 4))
+            j = next_worker()
             process_output(fl, ctr, outq[j][0].recv())
 
         # Cancel all the worker processes.
-- 
2.43.0


From a53e6b53b99c9c54b7e7a171a596c523369f390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 39/86] fix: parallel_map ends its workers when interrupted

---
 src/utils/parallel_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parallel_map.py b/src/utils/parallel_map.py
index fab1e97..c0af098 100644
--- a/src/utils/parallel_map.py
+++ b/src/utils/parallel_map.py
@@ -120,7 +120,7 @@ def parallel_map(f, l, parallelism=None):
         for p in process:
             p.join()
 
-    except Exception as e:           # paranoia
+    except BaseException:            # paranoia
         # Terminate all subprocesses immediately and reraise.
         for p in process:
             if p.is_alive():
-- 
2.43.0


From bd221149af41db85597a2e6098d7e9fd84097198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 40/86] fix: the column concentration move counts a dependent
 block as one customer

---
 src/crosscat/state.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 8e745e3..a41f351 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -798,7 +798,15 @@ class State(CGpm):
             kernel_funcs, N=N, S=S, progress=progress, checkpoint=checkpoint)
 
     def transition_crp_alpha(self):
-        self.crp.transition_hypers()
+        if self.Cd:
+            # Each block of dependent columns is effectively one customer.
+            Zv, grid = self.Zv(), self.crp.hyper_grids['alpha']
+            logps = [gu.logp_crp_constrained_dependent(Zv, alpha, self.Cd)
+                for alpha in grid]
+            index = gu.log_pflip(logps, rng=self.rng)
+            self.crp.set_hypers({'alpha': grid[index]})
+        else:
+            self.crp.transition_hypers()
         self._increment_iterations('alpha')
 
     def transition_view_alphas(self, views=None, cols=None):
-- 
2.43.0


From d48542bdc0f1a8050afee84a80ce648ec6eff019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 41/86] fix: RandomForest.unincorporate restores the category
 counts

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..f0965d1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,12 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 8a93f114d87e25258f6b38d56aefa586a04ffdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 42/86] fix: LinearRegression metadata keeps the prior mean and
 covariance of the weights

---
 src/regressions/linreg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..5127bdd 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -88,8 +88,8 @@ class LinearRegression(CGpm):
         if hypers is None: hypers = {}
         self.a = hypers.get('a', 1.)
         self.b = hypers.get('b', 1.)
-        self.mu = hypers.get('mu', np.zeros(self.p))
-        self.V = hypers.get('V', np.eye(self.p))
+        self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
+        self.V = np.asarray(hypers.get('V', np.eye(self.p)))
 
     def incorporate(self, rowid, observation, inputs=None):
         assert rowid not in self.data.x
@@ -344,6 +344,8 @@ class LinearRegression(CGpm):
         metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
+        metadata['hypers']['mu'] = np.asarray(self.mu).tolist()
+        metadata['hypers']['V'] = np.asarray(self.V).tolist()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From ecdcff80f69174fb771c251f0902603863941782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 43/86] fix: linreg metadata does not alias the live data, nor
 does loading modify it

---
 src/regressions/linreg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5127bdd..09139e2 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -341,7 +341,8 @@ class LinearRegression(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['hypers']['mu'] = np.asarray(self.mu).tolist()
-- 
2.43.0


From acd58941db3ad6b4e3f6e7d2c3077613e6e8258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 44/86] fix: ols metadata does not alias the live data, nor
 does loading modify it

---
 src/regressions/ols.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..f9bb698 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -217,7 +217,8 @@ class OrdinaryLeastSquares(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
         metadata['distargs'] = self.get_distargs()
         metadata['params'] = self.get_params()
         metadata['factory'] = ('cgpm.regressions.ols', 'OrdinaryLeastSquares')
@@ -236,11 +237,11 @@ class OrdinaryLeastSquares(CGpm):
         # Unpickle the sklearn ols.
         skl_ols = cPickle.loads(
             base64.b64decode(metadata['params']['regressor_binary']))
-        metadata['params']['regressor'] = skl_ols
+        params = dict(metadata['params'], regressor=skl_ols)
         ols = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
-- 
2.43.0


From 7107e9966cef56a46923ee413ccb7eb475aae6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 45/86] fix: forest metadata does not alias the live data, nor
 does loading modify it

---
 src/regressions/forest.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index f0965d1..8e53e08 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -234,8 +234,9 @@ class RandomForest(CGpm):
         metadata['outputs'] = self.outputs
         metadata['inputs'] = self.inputs
         metadata['N'] = self.N
-        metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
-        metadata['counts'] = self.counts
+        metadata['data'] = {
+            'x': OrderedDict(self.data.x), 'Y': OrderedDict(self.data.Y)}
+        metadata['counts'] = list(self.counts)
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
         metadata['params'] = self.get_params()
@@ -255,12 +256,12 @@ class RandomForest(CGpm):
         # Unpickle the sklearn forest.
         forest = cPickle.loads(
             base64.b64decode(metadata['params']['forest_binary']))
-        metadata['params']['forest'] = forest
+        params = dict(metadata['params'], forest=forest)
         forest = cls(
             outputs=metadata['outputs'],
             inputs=metadata['inputs'],
             hypers=metadata['hypers'],
-            params=metadata['params'],
+            params=params,
             distargs=metadata['distargs'],
             rng=rng)
         # json keys are strings -- convert back to integers.
@@ -268,5 +269,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
-- 
2.43.0


From 623b3a8f986c59c4a4ce326ba7b127b7ea3645cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 46/86] fix: FactorAnalysis.logpdf_score scores the recorded
 rows, not their ids

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..98a485d 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {
+                q: v for q, v in zip(self.observables, x) if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.values())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From 9106b48eca54652ac86ab4fb5c5697dc050b2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 47/86] fix: MultivariateKnn.logpdf takes float categories, and
 rejects unknown ones

---
 src/knn/mvknn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..caaacd7 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -233,7 +233,8 @@ class MultivariateKnn(CGpm):
         counts = np.bincount(locality.astype(int), minlength=self.levels[q])
         p = counts / np.sum(counts, dtype=float)
         simulate = lambda N: self.rng.choice(self.levels[q], p=p, size=N)
-        logpdf = lambda x: np.log(p[x])
+        logpdf = lambda x: np.log(p[int(x)]) \
+            if x in range(self.levels[q]) else -float('inf')
         return LocalGpm(simulate, logpdf)
 
     def _dummy_code(self, D, variables):
-- 
2.43.0


From b7a2cdf58949f652e236a5bf56f8bf64bf28b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 48/86] fix: nearest neighbors always include those closer than
 a tie

---
 src/knn/mvknn.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index caaacd7..c4244a3 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -196,8 +196,11 @@ class MultivariateKnn(CGpm):
         # Check for equidistant neighbors and possibly extend the search.
         valid = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K-1]]
         if self.K < len(valid):
-            neighbors = self.rng.choice(neighbors[0][valid],
-                replace=False, size=self.K)
+            # Only neighbors tied for the last places are chosen at random.
+            closer = [i for i in valid if dist[0][i] < dist[0][self.K-1]]
+            ties = self.rng.choice(valid[len(closer):],
+                replace=False, size=self.K-len(closer))
+            neighbors = neighbors[0][closer + list(ties)]
         else:
             neighbors = neighbors[0][:self.K]
         # For each neighbor, find its nearest M on the full lookup set.
-- 
2.43.0


From 4dad6af9c8333ae12d48a3ea21a59e2765152403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 49/86] fix: PieceWise joint density scores the given x, not z
 twice

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From af313843df343518d4171ba4a9250b267375eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 50/86] fix: FourWay probabilities sum to one in every quadrant

---
 src/dummy/fourway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..6ce0e9e 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -30,8 +30,8 @@ class FourWay(CGpm):
             rng = gu.gen_rng(1)
         self.rng = rng
         self.probabilities =[
-            [.70, .10, .05, .05],
-            [.10, .80, .10, .10],
+            [.80, .10, .05, .05],
+            [.10, .70, .10, .10],
             [.10, .15, .65, .10],
             [.10, .05, .10, .75],
         ]
-- 
2.43.0


From f05480f77189dd8e813a87e9f48c72ebf088ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 51/86] fix: FourWay.logpdf takes float categories, and rejects
 fractions

---
 src/dummy/fourway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index 6ce0e9e..974140f 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -57,13 +57,13 @@ class FourWay(CGpm):
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         x = targets[self.outputs[0]]
-        if not (0 <= x <= 3):
+        if x not in [0, 1, 2, 3]:
             return -float('inf')
         regime = self.lookup_quadrant(
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        return np.log(self.probabilities[regime][int(x)])
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From edf9e8136661e152a2349c4d65f0b6b31114cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 52/86] fix: TwoWay takes float values

---
 src/dummy/twoway.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dummy/twoway.py b/src/dummy/twoway.py
index 06b541c..fbe8b60 100644
--- a/src/dummy/twoway.py
+++ b/src/dummy/twoway.py
@@ -49,7 +49,7 @@ class TwoWay(CGpm):
         y = inputs[self.inputs[0]]
         assert int(y) == float(y)
         assert y in [0, 1]
-        x = gu.pflip(self.probabilities[y], rng=self.rng)
+        x = gu.pflip(self.probabilities[int(y)], rng=self.rng)
         return {self.outputs[0]: x}
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
@@ -57,7 +57,8 @@ class TwoWay(CGpm):
         assert int(y) == float(y)
         assert y in [0, 1]
         x = targets[self.outputs[0]]
-        return np.log(self.probabilities[y][x]) if x in [0,1] else -float('inf')
+        return np.log(self.probabilities[int(y)][int(x)]) \
+            if x in [0,1] else -float('inf')
 
     def transition(self, N=None):
         time.sleep(.1)
-- 
2.43.0


From ea49bdd615f9c44eead61f9822ea5f92eadf7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 53/86] fix: UnDirectedXyGpm.logpdf of one variable, and of two
 in any order

---
 src/uncorrelated/undirected.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..f011597 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -37,11 +37,11 @@ class UnDirectedXyGpm(CGpm):
         assert not inputs
         if not constraints:
             if len(targets) == 2:
-                x, y = targets.values()
+                x, y = [targets[q] for q in self.outputs]
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From 7651534a300290ead86d9354646ebfa5dfc093c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 54/86] fix: Dots.logpdf_conditional is the density of its
 target

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From 97e0dcd9193e62e4a2faa68a171be3dcb8b9942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 55/86] fix: DirectedXyGpm passes constraints and N to its
 network

---
 src/uncorrelated/directed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..11af01b 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,10 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(
+            rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 2decdb7ed4c28f8a8e5246864b2380aac19b0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 56/86] fix: Sin draws from the generator it is given

---
 src/uncorrelated/sin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..7c42c5e 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,13 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi,
+            rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From 529985ff62e4edfe1051306a7e2e4dd8dc1ea959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 57/86] fix: Parabola draws from the generator it is given

---
 src/uncorrelated/parabola.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..25410c6 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,10 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
-- 
2.43.0


From fd9e92197c6640dc53ae43abde5c1d1dc71e94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 58/86] fix: Diamond draws from the generator it is given

---
 src/uncorrelated/diamond.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..df8caa5 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,10 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1, rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
-- 
2.43.0


From 3edd2612c9ca05fa352c0ddec185a46f399453cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 59/86] fix: a refused State.relevance_probability left
 hypothetical rows behind

---
 src/crosscat/state.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index a41f351..c7cd70a 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -645,24 +645,28 @@ class State(CGpm):
             [{d: h.get(d, np.nan) for d in view.dims} for h in hypotheticals]
         ) if hypotheticals else []
         # Produce hypothetical rowids.
-        rowid_hypothetical = range(
-            self.n_rows(), self.n_rows() + len(hypotheticals))
-        # Incorporate hypothetical rows.
-        for rowid, query in zip(rowid_hypothetical, hypotheticals):
-            for d in view.dims:
-                self.X[d].append(query[d])
-            view.incorporate(rowid, query)
-        # Compute the relevance probability.
-        rowid_all = rowid_query + rowid_hypothetical
-        relevance = all(
-            view.Zr(rowid_target) == view.Zr(rq)
-            for rq in rowid_all
-        ) if rowid_all else 0
-        # Unincorporate hypothetical rows.
-        for rowid in reversed(rowid_hypothetical):
+        n_rows = self.n_rows()
+        rowid_hypothetical = range(n_rows, n_rows + len(hypotheticals))
+        incorporated = []
+        try:
+            # Incorporate hypothetical rows.
+            for rowid, query in zip(rowid_hypothetical, hypotheticals):
+                for d in view.dims:
+                    self.X[d].append(query[d])
+                view.incorporate(rowid, query)
+                incorporated.append(rowid)
+            # Compute the relevance probability.
+            rowid_all = rowid_query + rowid_hypothetical
+            relevance = all(
+                view.Zr(rowid_target) == view.Zr(rq)
+                for rq in rowid_all
+            ) if rowid_all else 0
+        finally:
+            # Unincorporate hypothetical rows, also if the query is refused.
+            for rowid in reversed(incorporated):
+                view.unincorporate(rowid)
             for d in view.dims:
-                self.X[d].pop()
-            view.unincorporate(rowid)
+                del self.X[d][n_rows:]
         return int(relevance)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 579f69dc350fe2454727117bd6b6eca9d6dbda3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 60/86] fix: metadata of states and views shared live lists and
 dicts with the model

---
 src/crosscat/state.py | 8 ++++----
 src/mixtures/view.py  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index c7cd70a..e13b63c 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1241,7 +1241,7 @@ class State(CGpm):
 
         # Dataset.
         metadata['X'] = self.data_array().tolist()
-        metadata['outputs'] = self.outputs
+        metadata['outputs'] = list(self.outputs)
 
         # View partition data.
         metadata['alpha'] = self.alpha()
@@ -1258,12 +1258,12 @@ class State(CGpm):
             # XXX Inputs to conditional dim are stored in
             # distargs['inputs']['indexes']; instead create a separate metadata
             # entry for the dimension inputs.
-            metadata['distargs'].append(dim.distargs)
+            metadata['distargs'].append(copy.deepcopy(dim.distargs))
             metadata['suffstats'].append(dim.get_suffstats().items())
 
         # Dependence constraints.
-        metadata['Cd'] = self.Cd
-        metadata['Ci'] = self.Ci
+        metadata['Cd'] = copy.deepcopy(self.Cd)
+        metadata['Ci'] = copy.deepcopy(self.Ci)
 
         # View data.
         metadata['Zrv'] = []
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 1735e33..e9af6a5 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -584,7 +584,7 @@ class View(CGpm):
 
         # Dataset.
         metadata['X'] = copy.deepcopy(self.X)
-        metadata['outputs'] = self.outputs
+        metadata['outputs'] = list(self.outputs)
 
         # View partition data.
         rowids = sorted(self.Zr().keys())
@@ -599,7 +599,8 @@ class View(CGpm):
         for c in self.outputs[1:]:
             metadata['cctypes'].append(self.dims[c].cctype)
             metadata['hypers'].append(dict(self.dims[c].hypers))
-            metadata['distargs'].append(self.dims[c].distargs)
+            metadata['distargs'].append(
+                copy.deepcopy(self.dims[c].distargs))
             metadata['suffstats'].append(self.dims[c].get_suffstats().items())
 
         # Factory data.
-- 
2.43.0


From c4b5fac4afe03c01a28644391b7f7d0523f8cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 61/86] fix: View.relevance_probability failed, leaving rows
 removed, when target and query rows are all rows

---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From a846822f939b16a4fabb764a5e1ca1fa96b38f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 62/86] fix: View.relevance_probability removed a query row
 once per mention, and then failed

---
 src/mixtures/relevance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index c25f4b4..4a19012 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -97,6 +97,9 @@ def relevance_probability(view, rowid_target, rowid_query):
     if rowid_target in rowid_query:
         return 1.
 
+    # Each query row is removed, and restored, once.
+    rowid_query = sorted(set(rowid_query))
+
     # Retrieve target crp assignments and data to restore later.
     assignments_target = view.Zr(rowid_target)
     values_target = row_values(view, rowid_target)
-- 
2.43.0


From c776e80342fa810fa71f4f5b3e48bc24f740f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:47 +0000
Subject: [PATCH 63/86] fix: Engine.from_metadata wrote into the metadata it
 was given

---
 src/crosscat/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 1c79e4f..ba4ecdf 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -410,15 +410,15 @@ class Engine(object):
             rng=rng,
             multiprocess=multiprocess)
         # Repopulate the states with the dataset.
-        for m in metadata['states']:
-            m['X'] = metadata['X']
-        num_states = len(metadata['states'])
+        metadata_states = [
+            dict(m, X=metadata['X']) for m in metadata['states']]
+        num_states = len(metadata_states)
         def retrieve_state((state, seed)):
             return State.from_metadata(state, rng=gu.gen_rng(seed))
         mapper = parallel_map if multiprocess else map
         engine.states = mapper(
             retrieve_state,
-            zip(metadata['states'], engine._get_seeds(num_states)))
+            zip(metadata_states, engine._get_seeds(num_states)))
         return engine
 
     def to_pickle(self, fileptr):
-- 
2.43.0


From 18e9e07a9ad3475fbb12afb315f75b5ef2843a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 64/86] fix: dependence_probability missed a composed column
 that is an ancestor of the other

---
 src/crosscat/state.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e13b63c..5577c5f 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -595,11 +595,14 @@ class State(CGpm):
         # XXX Conservatively assume all outputs of a particular are dependent.
         if any(col0 in c.outputs and col1 in c.outputs for c in cgpms):
             return 1.
-        # Use the BayesBall algorithm on the cgpm network.
-        ancestors0 = retrieve_ancestors(cgpms, col0) if col0 not in Zv\
-            else [c for c in Zv if Zv[c]==Zv[col0]]
-        ancestors1 = retrieve_ancestors(cgpms, col1) if col1 not in Zv\
-            else [c for c in Zv if Zv[c]==Zv[col1]]
+        # Use the BayesBall algorithm on the cgpm network. A column, and each of
+        # its ancestors, is generated together with the outputs of its cgpm.
+        def retrieve_sources(col):
+            sources = set([col] + retrieve_ancestors(cgpms, col))
+            joint = [c.outputs for c in cgpms if sources & set(c.outputs)]
+            return sources.union(*joint)
+        ancestors0 = retrieve_sources(col0)
+        ancestors1 = retrieve_sources(col1)
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
             return 1.
-- 
2.43.0


From f066f69dae5c42bea9d5f793f64b9eaee541cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 65/86] fix: kldiv failed with k=1

---
 src/utils/entropy_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/entropy_estimators.py b/src/utils/entropy_estimators.py
index a98f500..c985e13 100755
--- a/src/utils/entropy_estimators.py
+++ b/src/utils/entropy_estimators.py
@@ -84,7 +84,9 @@ def kldiv(x, xp, k=3, base=2):
   tree = ss.cKDTree(x)
   treep = ss.cKDTree(xp)
   nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in x]
-  nnp = [treep.query(point, k, p=float('inf'))[0][k-1] for point in x]
+  # A query for a single neighbor returns a scalar.
+  nnp = [np.atleast_1d(treep.query(point, k, p=float('inf'))[0])[k-1]
+    for point in x]
   return (const + d * np.mean(map(log, nnp)) \
     - d * np.mean(map(log, nn))) / log(base)
 
-- 
2.43.0


From cd230da7d61e5823209e7aa64d0f1f7ed3cc5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 66/86] fix: likelihood weights of an engine take the inputs as
 inputs, not as constraints

---
 src/crosscat/engine.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index ba4ecdf..55b1b6e 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -361,23 +361,23 @@ class Engine(object):
     def _likelihood_weighted_integrate(self, logpdfs, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
         # Computes an importance sampling integral with likelihood weight.
-        assert len(logpdfs) == \
-            len(self.states) if statenos is None else len(statenos)
+        assert len(logpdfs) == (
+            len(self.states) if statenos is None else len(statenos))
         if constraints:
-            weights = self.logpdf(rowid, constraints, inputs, statenos=statenos,
-                multiprocess=multiprocess)
+            weights = self.logpdf(rowid, constraints, inputs=inputs,
+                statenos=statenos, multiprocess=multiprocess)
             return gu.logmeanexp_weighted(logpdfs, weights)
         else:
             return gu.logmeanexp(logpdfs)
 
     def _likelihood_weighted_resample(self, samples, rowid, constraints=None,
             inputs=None, statenos=None, multiprocess=1):
-        assert len(samples) == \
-            len(self.states) if statenos is None else len(statenos)
+        assert len(samples) == (
+            len(self.states) if statenos is None else len(statenos))
         assert all(len(s) == len(samples[0]) for s in samples[1:])
         N = len(samples[0])
         weights = np.zeros(len(samples)) if not constraints else \
-            self.logpdf(rowid, constraints, inputs,
+            self.logpdf(rowid, constraints, inputs=inputs,
                 statenos=statenos, multiprocess=multiprocess)
         n_model = np.bincount(gu.log_pflip(weights, size=N, rng=self.rng))
         indexes = [self.rng.choice(N, size=n, replace=False) for n in n_model]
-- 
2.43.0


From 575cbfd76c80c92d9a86f4a38f69ceffd63a09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 67/86] fix: an empty selection of states selected all the
 states of an engine

---
 src/crosscat/engine.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 55b1b6e..80d6643 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -76,7 +76,7 @@ class Engine(object):
             views=None, progress=True, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition', self.states[s],
                 (N, S, kernels, rowids, cols, views, progress, checkpoint))
                 for s in statenos]
@@ -89,7 +89,7 @@ class Engine(object):
             cols=None, progress=None, checkpoint=None, statenos=None,
             multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition_lovecat', self.states[s],
                 (N, S, kernels, rowids, cols, progress, checkpoint))
                 for s in statenos]
@@ -108,7 +108,7 @@ class Engine(object):
     def transition_foreign(self, N=None, S=None, cols=None, progress=True,
             statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('transition_foreign', self.states[s],
                 (N, S, cols, progress))
                 for s in statenos]
@@ -192,7 +192,7 @@ class Engine(object):
     def logpdf(self, rowid, targets, constraints=None, inputs=None,
             accuracy=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf', self.states[s],
                 (rowid, targets, constraints, inputs, accuracy))
             for s in statenos]
@@ -202,7 +202,7 @@ class Engine(object):
     def logpdf_bulk(self, rowids, targets_list, constraints_list=None,
             inputs_list=None, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list))
                 for s in statenos]
@@ -211,7 +211,7 @@ class Engine(object):
 
     def logpdf_score(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_score', self.states[s],
                 ())
                 for s in statenos]
@@ -220,7 +220,7 @@ class Engine(object):
 
     def logpdf_likelihood(self, statenos=None, multiprocess=1):
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('logpdf_likelihood', self.states[s],
                 ())
                 for s in statenos]
@@ -231,7 +231,7 @@ class Engine(object):
             accuracy=None, statenos=None, multiprocess=1):
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('simulate', self.states[s],
                 (rowid, targets, constraints, inputs, N, accuracy))
                 for s in statenos]
@@ -243,7 +243,7 @@ class Engine(object):
         """Returns list of simualate_bulk, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('simulate_bulk', self.states[s],
                 (rowids, targets_list, constraints_list, inputs_list, Ns))
                 for s in statenos]
@@ -255,7 +255,7 @@ class Engine(object):
         """Returns list of mutual information estimates, one for each state."""
         self._seed_states()
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('mutual_information', self.states[s],
                 (col0, col1, constraints, T, N, progress))
                 for s in statenos]
@@ -265,7 +265,7 @@ class Engine(object):
     def dependence_probability(self, col0, col1, statenos=None, multiprocess=1):
         """Compute dependence probabilities between col0 and col1."""
         # XXX Ignore multiprocess.
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         return [self.states[s].dependence_probability(col0, col1)
             for s in statenos]
 
@@ -273,7 +273,7 @@ class Engine(object):
             multiprocess=1):
         """Compute dependence probability between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('dependence_probability_pairwise', self.states[s],
                 (colnos,))
                 for s in statenos]
@@ -283,7 +283,7 @@ class Engine(object):
     def row_similarity(self, row0, row1, cols=None, statenos=None,
             multiprocess=1):
         """Compute similarities between row0 and row1."""
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         # XXX Ignore multiprocess.
         return [self.states[s].row_similarity(row0, row1, cols)
             for s in statenos]
@@ -291,7 +291,7 @@ class Engine(object):
     def row_similarity_pairwise(self, cols=None, statenos=None, multiprocess=1):
         """Compute row similarity between all pairs as matrix."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('row_similarity_pairwise', self.states[s],
                 (cols,))
                 for s in statenos]
@@ -303,7 +303,7 @@ class Engine(object):
             statenos=None, multiprocess=1):
         """Compute relevance probability of query rows for target row."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [('relevance_probability', self.states[s],
                 (rowid_target, rowid_query, col, hypotheticals))
                 for s in statenos]
@@ -313,7 +313,7 @@ class Engine(object):
     def alter(self, funcs, statenos=None, multiprocess=1):
         """Apply generic funcs on states in parallel."""
         mapper = parallel_map if multiprocess else map
-        statenos = statenos or xrange(self.num_states())
+        if statenos is None: statenos = xrange(self.num_states())
         args = [(funcs, self.states[s]) for s in statenos]
         states = mapper(_alter, args)
         for s, state in zip(statenos, states):
-- 
2.43.0


From d0cbdbf57d8b9e5a2106ea96d1242454750c29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 68/86] fix: states added to an engine keep its column
 dependence constraints

---
 src/crosscat/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 80d6643..79c3890 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -341,6 +341,8 @@ class Engine(object):
         kwargs['cctypes'] = self.states[0].cctypes()
         kwargs['distargs'] = self.states[0].distargs()
         kwargs['outputs'] = self.states[0].outputs
+        kwargs.setdefault('Cd', list(self.states[0].Cd))
+        kwargs.setdefault('Ci', list(self.states[0].Ci))
         args = [(X, seed, kwargs) for seed in self._get_seeds(count)]
         new_states = mapper(_intialize, args)
         self.states.extend(new_states)
-- 
2.43.0


From cef3f20f098905493543d379f84c838294728d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 69/86] fix: results of an engine depended on multiprocess
 after a query

---
 src/crosscat/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/engine.py b/src/crosscat/engine.py
index 79c3890..704022c 100644
--- a/src/crosscat/engine.py
+++ b/src/crosscat/engine.py
@@ -55,7 +55,13 @@ def _compose((method, state, cgpm_metadata, args)):
     return state
 
 def _evaluate((method, state, args)):
-    return getattr(state, method)(*args)
+    # A query in a worker process leaves the stream of the state alone; one in
+    # this process must too, or what follows depends on multiprocess.
+    stream = state.rng.get_state()
+    try:
+        return getattr(state, method)(*args)
+    finally:
+        state.rng.set_state(stream)
 
 
 class Engine(object):
-- 
2.43.0


From 5d2fa7d091b1b5b07650c7add76491350c356c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 70/86] fix: a transition of zero sweeps, or zero seconds,
 failed

---
 src/crosscat/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 5577c5f..275a51e 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -922,11 +922,11 @@ class State(CGpm):
             if S is None:
                 p_seconds = 0
             else:
-                p_seconds = (time.time() - start) / S
+                p_seconds = (time.time() - start) / S if S > 0 else 1.
             if N is None:
                 p_iters = 0
             else:
-                p_iters = float(iters)/N
+                p_iters = float(iters)/N if N > 0 else 1.
             return max(p_iters, p_seconds)
 
         if N is None and S is None:
-- 
2.43.0


From 8164b8476bddabc1ace1531a8c2ad8ccfb130336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 71/86] fix: a cell forced into a row updates the conditional
 columns given it

---
 src/crosscat/state.py | 1 +
 src/mixtures/view.py  | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 275a51e..fb2452b 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -352,6 +352,7 @@ class State(CGpm):
             missing = {c: float('nan') for c in observation}
             for col in missing:
                 self.X[col][rowid] = missing[col]
+            for col in missing:
                 self.view_for(col).force_cell(rowid, {col: missing[col]})
             raise
 
diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index e9af6a5..f38343a 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -196,11 +196,16 @@ class View(CGpm):
     # XXX Major hack to force values of NaN cells in incorporated rowids.
     def force_cell(self, rowid, observation):
         k = self.Zr(rowid)
-        for d in observation:
+        # The cells of the conditional dims given a forced cell change as well.
+        dependents = [
+            (d, self.X[d][rowid]) for d in self.dims if d not in observation
+            and any(i in observation for i in self.dims[d].inputs[1:])
+        ]
+        for d, value in observation.items() + dependents:
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
             try:
-                self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+                self.dims[d].incorporate(rowid, {d: value}, inputs)
             except Exception:
                 # Leave the cell of a refused observation missing.
                 self.dims[d].incorporate(rowid, {d: float('nan')}, inputs)
-- 
2.43.0


From 3f7b33bf81d4a79c5638aac496b670cb29c42085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 72/86] fix: a refused incorporate_dim left the dim in states
 with conditional dims

---
 src/crosscat/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index fb2452b..bc7d714 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -209,6 +209,9 @@ class State(CGpm):
         if v is None and self.Cd:
             raise ValueError(
                 'Specify the view of a dim in a state with dependencies.')
+        if v is None and any(d.is_conditional() for d in self.dims()):
+            raise ValueError(
+                'Specify the view of a dim in a state with conditional dims.')
         # Append new output to outputs.
         col = outputs[0]
         self.X[col] = list(T)
-- 
2.43.0


From 812d47ab5188142998e718b4a26397a0495bf3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 73/86] fix: lovecat received row partitions out of order once
 rows have moved

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..c28501f 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From 00c7b35ee3c19b9056c1b174846ad2d6be016b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 74/86] fix: transition_lovecat failed without N and S

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index c28501f..1e344d8 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From bdbe8388fe39b93f167f8ae64ce65c5d1afa61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 75/86] fix: lovecat received the constraints by column id, not
 by column index

---
 src/crosscat/lovecat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 1e344d8..0d6d74a 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -205,14 +205,17 @@ def _crosscat_X_L(state, M_c, X_D):
     col_ensure = dict()
     if state.Cd:
         col_ensure['dependent'] = {
-            str(column) : list(block)
+            str(state.outputs.index(column)) :
+                [state.outputs.index(c) for c in block]
             for block in state.Cd for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples([
+                (state.outputs.index(a), state.outputs.index(b))
+                for a, b in state.Ci]).iteritems()
         }
 
     return {
-- 
2.43.0


From 2e7bb1d2aa8a13866f66b7860a8326bb8ed48724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 76/86] fix: transition_loom of an engine asked for None passes
 without N

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..159c359 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -318,6 +318,9 @@ def transition_engine(
         for state in engine.states:
             state._loom_path = loom_path
 
+    if N is None:
+        N = 1
+
     # Run transitions using Loom multiprocessing.
     loom.tasks.infer(
         engine.states[0]._loom_path['results'],
-- 
2.43.0


From 538b7b780304296b66799fe9f4fac3df1b3600c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 77/86] fix: loom projects created within one second shared a
 directory

---
 src/crosscat/loomcat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 159c359..d523351 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -17,6 +17,7 @@
 import csv
 import itertools
 import os
+import tempfile
 
 import loom.cleanse
 import loom.tasks
@@ -52,9 +53,12 @@ def _generate_loom_stattypes(state):
 
 def _generate_project_paths(name=None):
     """Creates a new project in the loom store."""
-    if name is None:
-        name = cu.timestamp()
     store = _retrieve_loom_store()
+    if name is None:
+        # Projects created in the same second do not share a directory.
+        if not os.path.exists(store):
+            os.makedirs(store)
+        name = tempfile.mkdtemp(prefix='%s-' % (cu.timestamp(),), dir=store)
     project_root = os.path.join(store, name)
     # Create necessary subdirectories.
     paths = {
-- 
2.43.0


From f4d6652cba409d54825fa64980786e46291a131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 78/86] fix: VsCGpm.simulate ignored the number of samples
 asked for

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..bc896e2 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -93,6 +93,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From c508bed55f80a3f45e0761bbaa914dd52093063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 79/86] fix: restoring a VsCGpm changed the metadata it was
 given

---
 src/venturescript/vscgpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index bc896e2..fbc1800 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -158,7 +158,7 @@ class VsCGpm(CGpm):
         )
         # Restore the observations. We need to convert string keys to integers.
         # XXX Eliminate this terrible defaultdict hack. See Github #187.
-        obs_converted = VsCGpm._obs_from_json(metadata['obs'])
+        obs_converted = VsCGpm._obs_from_json(copy.deepcopy(metadata['obs']))
         cgpm.obs = defaultdict(lambda: defaultdict(dict))
         for key, value in obs_converted.iteritems():
             cgpm.obs[key] = defaultdict(dict, value)
-- 
2.43.0


From fc2b5312e825d00261a7a221a242571507276063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 80/86] fix: a refused VsCGpm.incorporate left cells of the row
 observed

---
 src/venturescript/vscgpm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index fbc1800..add0d0e 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -79,8 +79,18 @@ class VsCGpm(CGpm):
 
     def incorporate(self, rowid, observation, inputs=None):
         inputs = self._validate_incorporate(rowid, observation, inputs)
-        for variable, value in observation.iteritems():
-            self._observe_cell(rowid, variable, value, inputs)
+        observed = []
+        try:
+            for variable, value in observation.iteritems():
+                self._observe_cell(rowid, variable, value, inputs)
+                observed.append(variable)
+        except Exception:
+            # Retract the cells already observed, and the row if it is new.
+            for variable in observed:
+                self._forget_cell(rowid, variable)
+            if not self.obs[rowid]['labels']:
+                del self.obs[rowid]
+            raise
 
     def unincorporate(self, rowid):
         if rowid not in self.obs:
-- 
2.43.0


From 940d271519d1ebce950040fc89940fb8f72ba06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 81/86] fix: VsCGpm.simulate left constraints observed after a
 failure, and hypothetical rows recorded

---
 src/venturescript/vscgpm.py | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index add0d0e..28be1aa 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -107,26 +107,35 @@ class VsCGpm(CGpm):
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-        # Handle constraints on the multivariate output.
-        if constraints_clean:
-            # Observe constrained outputs.
-            for variable, value in constraints_clean.iteritems():
-                self._observe_cell(rowid, variable, value, inputs_clean)
-            # Run local inference in rowid scope, with 15 steps of MH.
-            self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 15))
-        # Retrieve samples, with 5 steps of MH between predict.
-        def retrieve_sample(q, l):
-            # XXX Only run inference on the latent variables in the block.
+        exists = rowid in self.obs
+        labels, samples = [], {}
+        try:
+            # Handle constraints on the multivariate output.
+            if constraints_clean:
+                # Observe constrained outputs.
+                for variable, value in constraints_clean.iteritems():
+                    self._observe_cell(rowid, variable, value, inputs_clean)
+                # Run local inference in rowid scope, with 15 steps of MH.
+                self.ripl.infer(
+                    '(resimulation_mh (atom %i) all %i)' % (rowid, 15))
+            # Retrieve samples.
+            # XXX Run 5 steps of MH between predict, only on the latent
+            # variables in the block.
             # self.ripl.infer('(resimulation_mh (atom %i) all %i)' % (rowid, 5))
-            return self._predict_cell(rowid, q, inputs_clean, l)
-        labels = [self._gen_label() for q in targets]
-        samples = {q: retrieve_sample(q, l) for q, l in zip(targets, labels)}
-        # Forget predicted targets variables.
-        for label in labels:
-            self.ripl.forget(label)
-        # Forget constrained outputs.
-        for q, _v in constraints_clean.iteritems():
-            self._forget_cell(rowid, q)
+            for q in targets:
+                label = self._gen_label()
+                samples[q] = self._predict_cell(rowid, q, inputs_clean, label)
+                labels.append(label)
+        finally:
+            # Forget predicted targets variables.
+            for label in labels:
+                self.ripl.forget(label)
+            # Forget constrained outputs.
+            for q in constraints_clean:
+                self._forget_cell(rowid, q)
+            # Forget a hypothetical row, which the constraints have created.
+            if not exists:
+                self.obs.pop(rowid, None)
         return samples
 
     def logpdf_score(self):
-- 
2.43.0


From 5412447fce9fc92b4e65a000f760a5a56c8ced8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 82/86] fix: a failed query of an inline venturescript left its
 expression assumed

---
 src/venturescript/vsinline.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/venturescript/vsinline.py b/src/venturescript/vsinline.py
index 060611b..e9095f9 100644
--- a/src/venturescript/vsinline.py
+++ b/src/venturescript/vsinline.py
@@ -70,15 +70,17 @@ class InlineVsCGpm(CGpm):
         assert not constraints
         self.ripl.assume('expr', self.expression, label='expr_assume')
         sp_args = self._retrieve_args(inputs)
-        # Retrieve the conditional density.
-        logp = self.ripl.observe(
-            'expr (%s)' % (sp_args,),
-            targets[self.outputs[0]],
-            label='expr_observe',
-        )
-        # Forget the label.
-        self.ripl.forget('expr_observe')
-        self.ripl.forget('expr_assume')
+        try:
+            # Retrieve the conditional density.
+            logp = self.ripl.observe(
+                'expr (%s)' % (sp_args,),
+                targets[self.outputs[0]],
+                label='expr_observe',
+            )
+            # Forget the label.
+            self.ripl.forget('expr_observe')
+        finally:
+            self.ripl.forget('expr_assume')
         return logp[0]
 
     @gu.simulate_many
@@ -90,8 +92,10 @@ class InlineVsCGpm(CGpm):
         assert not constraints
         self.ripl.assume('expr', self.expression, label='expr')
         sp_args = self._retrieve_args(inputs)
-        sample = self.ripl.sample('expr(%s)' % (sp_args,))
-        self.ripl.forget('expr')
+        try:
+            sample = self.ripl.sample('expr(%s)' % (sp_args,))
+        finally:
+            self.ripl.forget('expr')
         return {self.outputs[0]: sample}
 
     def logpdf_score(self):
-- 
2.43.0


From b68576a6c074e02b1798e43b081c7a21ce32ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 83/86] fix: InlineVsCGpm.simulate required constraints, which
 it refuses

---
 src/venturescript/vsinline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/venturescript/vsinline.py b/src/venturescript/vsinline.py
index e9095f9..2db8ccd 100644
--- a/src/venturescript/vsinline.py
+++ b/src/venturescript/vsinline.py
@@ -84,7 +84,7 @@ class InlineVsCGpm(CGpm):
         return logp[0]
 
     @gu.simulate_many
-    def simulate(self, rowid, targets, constraints, inputs=None, N=None):
+    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if inputs is None:
             inputs = {}
         assert set(inputs.keys()) == set(self.inputs)
-- 
2.43.0


From 34d2ded2ac46539eb38ad5912c2c34a3cc8b7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 84/86] fix: a recorded row of a view is recorded whatever
 other rows were removed

---
 src/mixtures/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index f38343a..eb9f7cf 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -472,7 +472,7 @@ class View(CGpm):
         return len(self.Zr())
 
     def hypothetical(self, rowid):
-        return not (0 <= rowid < len(self.Zr()))
+        return rowid not in self.Zr()
 
     def _populate_constraints(self, rowid, targets, constraints):
         """Loads constraints from the dataset."""
-- 
2.43.0


From 45b9579ffbc949121615ff7648e2ab1ecb869990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 85/86] fix: metadata of a view kept the clusters of its rows
 but not which rows they are

---
 src/mixtures/view.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index eb9f7cf..dfd9a71 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -59,7 +59,8 @@ class View(CGpm):
         hypers : list<dict>, optional.
             A `len(outputs[1:])` list of hyperparameters.
         Zr : list<int>, optional.
-            Row partition, where `Zr[rowid]` is the cluster identity of rowid.
+            Row partition, where `Zr[rowid]` is the cluster identity of rowid,
+            or None if it is not to be incorporated.
         rng : np.random.RandomState, optional.
             Source of entropy.
         """
@@ -103,7 +104,8 @@ class View(CGpm):
                 self.crp.incorporate(i, s, {-1:0})
         else:
             for i, z in enumerate(Zr):
-                self.crp.incorporate(i, {self.outputs[0]: z}, {-1:0})
+                if z is not None:
+                    self.crp.incorporate(i, {self.outputs[0]: z}, {-1:0})
 
         # -- Dimensions --------------------------------------------------------
         self.dims = dict()
@@ -591,9 +593,9 @@ class View(CGpm):
         metadata['X'] = copy.deepcopy(self.X)
         metadata['outputs'] = list(self.outputs)
 
-        # View partition data.
-        rowids = sorted(self.Zr().keys())
-        metadata['Zr'] = [self.Zr(i) for i in rowids]
+        # View partition data, None for a rowid which is not incorporated.
+        rowids = range(max(self.Zr()) + 1) if self.Zr() else []
+        metadata['Zr'] = [self.Zr().get(i) for i in rowids]
         metadata['alpha'] = self.alpha()
 
         # Column data.
-- 
2.43.0


From 99b6b15b049cf259426228f88b080f95e1f7f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 86/86] fix: VonMises.set_hypers checked b twice and k not at
 all

---
 src/primitives/vonmises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/vonmises.py b/src/primitives/vonmises.py
index 54349c1..83d0e51 100644
--- a/src/primitives/vonmises.py
+++ b/src/primitives/vonmises.py
@@ -108,7 +108,7 @@ class Vonmises(DistributionGpm):
 
     def set_hypers(self, hypers):
         assert hypers['a'] > 0
-        assert hypers['b'] > 0
+        assert hypers['k'] > 0
         assert 0 <= hypers['b'] and hypers['b'] <= 2*pi
         self.a = hypers['a']
         self.b = hypers['b']
-- 
2.43.0

