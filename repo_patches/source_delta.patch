From ca3cbecda427c1d6bd5493acec84e53936655f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 01/93] fix: chained optimizers always inform the stage which
 asked the point

When points were told without having been asked, num_tell could run ahead of num_ask
so that the loss of an asked point was withheld from the stage which had proposed it
(dead-locking stages running in a background thread).
---
 nevergrad/optimization/optimizerlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..6b99e28 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3416,9 +3416,13 @@ class _Chain(base.Optimizer):
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
-            if self.num_tell < sum_budget and not (
-                self.no_crossing
-                and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
+            # the algorithm which proposed the point must always be told (even if tell-not-asked shifted num_tell)
+            if candidate.uid in opt._asked or (
+                self.num_tell < sum_budget
+                and not (
+                    self.no_crossing
+                    and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
+                )
             ):
                 opt.tell(candidate, loss)
 
-- 
2.43.0


From fc9bbcd8a2fd35131cca8da673acd52819e8d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 02/93] fix: MultipleSingleRuns scalarizes each point's own
 losses and keeps the recorded loss

---
 nevergrad/optimization/optimizerlib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 6b99e28..ca06a10 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -5377,9 +5377,12 @@ class _MSR(Portfolio):
             self.coeffs = [
                 self.parametrization.random_state.uniform(size=self.num_objectives) for _ in self.optims
             ]
+        told_loss = candidate.loss  # the sub-optimizers record their own scalarization on the candidate
+        losses = candidate.losses if self.num_objectives > 1 else loss
         for coeffs, opt in zip(self.coeffs, self.optims):
-            this_loss = np.sum(loss * coeffs)
+            this_loss = np.sum(losses * coeffs)
             opt.tell(candidate, this_loss)
+        candidate.loss = told_loss
 
 
 class MultipleSingleRuns(base.ConfiguredOptimizer):
-- 
2.43.0


From 78141e7125e55dcbf1cd0bc23242a8b2064570c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 03/93] fix: a told point is not a constraint violation because
 it is in the tabu list

Every asked point is in the tabu list by the time it is told, so optimizers with a tabu list
and a budget never recorded any evaluation and always recommended the initial point.
---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..2d16fc0 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -394,7 +394,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization) and self.budget is not None:
+        if not candidate.satisfies_constraints(no_tabu=True) and self.budget is not None:
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From 390ac33a8b7953d5b33fb24c2bc6cadb6ad744c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 04/93] fix: tabu list with values nesting dicts or arrays
 (unhashable)

---
 nevergrad/parametrization/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a010eac..e285acd 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -24,6 +24,17 @@ def default_congruence(x: tp.Any) -> tp.Any:
     return x
 
 
+def _as_hashable(val: tp.Any) -> tp.Hashable:
+    """Hashable representation of a (possibly nested) value, for use in the tabu list"""
+    if isinstance(val, np.ndarray):
+        return val.shape, val.tobytes()
+    if isinstance(val, dict):
+        return tuple((k, _as_hashable(val[k])) for k in sorted(val, key=str))
+    if isinstance(val, (tuple, list)):
+        return tuple(_as_hashable(v) for v in val)
+    return val
+
+
 # pylint: disable=too-many-public-methods
 class Parameter(Layered):
     """Class providing the core functionality of a parameter, aka
@@ -292,11 +303,7 @@ class Parameter(Layered):
         val = self.value
         if not no_tabu and ref is not None and ref.tabu_length > 0 and self.tabu_fails < 30:
             tabu_val = self.tabu_congruence(val)
-            if isinstance(tabu_val, np.ndarray):
-                tabu_val = hash(tabu_val.tobytes())
-            if isinstance(tabu_val, dict):
-                keys = sorted(list(tabu_val.keys()))
-                tabu_val = str(keys) + str([tabu_val[k] for k in keys])
+            tabu_val = _as_hashable(tabu_val)
             try:
                 if tabu_val in ref.tabu_set:
                     self.tabu_fails += 1
-- 
2.43.0


From e29f10ef9e8c8e9f61597f63bd06bab2f1e8dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 05/93] fix: Carola3 alternates over its own sub-optimizers

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index ca06a10..8a89568 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3528,6 +3528,8 @@ class Carola3(Portfolio):
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
         self.optims.clear()
         self.optims.extend(optims)
+        self.turns = [k for k, opt in enumerate(self.optims) for _ in range(opt.num_workers)]
+        self.num_times = [0] * len(self.optims)
 
 
 BAR = ConfPortfolio(optimizers=[OnePlusOne, DiagonalCMA, OpoDE], warmup_ratio=0.5).set_name(
-- 
2.43.0


From 46eae2ea7e74cf3d534acaa0ab3b55c39f521f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 06/93] fix: portfolios do not ask a sub-optimizer whose
 workers are all busy

---
 nevergrad/optimization/optimizerlib.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 8a89568..44e411d 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2047,14 +2047,16 @@ class Portfolio(base.Optimizer):
         if num == 1:
             optim_index = 0
         else:
-            # for _ in range(2 * len(self.turns)):
-            self._current += 1
-            # optim_index = self._current % len(self.optims)
-            optim_index = self.turns[self._current % len(self.turns)]
-            assert optim_index < len(
-                self.optims
-            ), f"{optim_index}, {self.turns}, {len(self.optims)} {self.num_times} {self.str_info} {self.optims}"
-            opt = self.optims[optim_index]
+            for _ in range(len(self.turns)):
+                self._current += 1
+                # optim_index = self._current % len(self.optims)
+                optim_index = self.turns[self._current % len(self.turns)]
+                assert optim_index < len(
+                    self.optims
+                ), f"{optim_index}, {self.turns}, {len(self.optims)} {self.num_times} {self.str_info} {self.optims}"
+                opt = self.optims[optim_index]
+                if len(opt._asked) < opt.num_workers:  # else all its workers are busy (can deadlock if sequential)
+                    break
             # break
             # if opt.num_workers > opt.num_ask - (opt.num_tell):  # - opt.num_tell_not_asked):
             #     # if opt.num_workers > opt.num_ask - (opt.num_tell - opt.num_tell_not_asked):
-- 
2.43.0


From e9de60677c8e3039a2bea44731efda8fb8209ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 07/93] fix: clear error for portfolios of sequential
 optimizers with too many workers

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 44e411d..c2decb7 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1968,6 +1968,8 @@ class Portfolio(base.Optimizer):
         if num_workers <= num:
             num_non_para = 0  # no problem with non-parallelizable if num_workers < num
         num_para = num - num_non_para
+        if not num_para:
+            raise ValueError(f"{num} sequential optimizers does not support parallelization on {num_workers} workers")
         rebudget = (
             int(np.ceil((budget * config.warmup_ratio)))
             if config is not None and config.warmup_ratio is not None and budget is not None
-- 
2.43.0


From 79fbb8639652da3ca6b2498a9c2a83cecdc8103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 08/93] fix: do not wait forever for a recast thread which has
 posted its last message

---
 nevergrad/optimization/recaster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index aa0c07e..4cda0d9 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -101,6 +101,9 @@ class MessagingThread:
     def is_alive(self) -> bool:
         return self._thread.is_alive()
 
+    def join(self) -> None:
+        self._thread.join()
+
     @property
     def output(self) -> tp.Any:
         return self._thread.output
@@ -266,6 +269,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         alive = self._messaging_thread.is_alive()
         if alive:
             point = self._messaging_thread.messages_ask.get()
+            if point is None or isinstance(point, Exception):
+                self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(point, Exception):
                 raise point
         if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
@@ -369,6 +374,8 @@ class BatchRecastOptimizer(RecastOptimizer):
         # wait for a message
         if alive:
             points = self._messaging_thread.messages_ask.get()
+            if points is None or isinstance(points, Exception):
+                self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(points, Exception):
                 raise points
         if not alive or points is None:  # In case the algorithm stops before the budget is elapsed.
-- 
2.43.0


From c15c8176b4e1fdbb455326b027b856cc6e9d2f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 09/93] fix: rotated crossover in dimension 1

---
 nevergrad/optimization/mutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/mutations.py b/nevergrad/optimization/mutations.py
index df7a21f..7134a15 100644
--- a/nevergrad/optimization/mutations.py
+++ b/nevergrad/optimization/mutations.py
@@ -131,7 +131,7 @@ class Mutator:
     ) -> tp.ArrayLike:
         if rotation:
             dim = len(parent)
-            k = self.random_state.randint(1, dim)
+            k = self.random_state.randint(1, max(2, dim))
             mix = [self.random_state.choice([donor[(i + k) % dim], parent[i]]) for i in range(len(parent))]
         else:
             if crossover_type == "rand":
-- 
2.43.0


From ddac170c58cdacfd50f73cead407d04ea1d80ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 10/93] fix: Doerr mutation rates in dimension 1

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index c2decb7..ddf32d4 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -242,7 +242,7 @@ class _OnePlusOne(base.Optimizer):
             self._doerr_mutation_rewards = [0.0, 0.0]
             self._doerr_counters = [0.0, 0.0]
             self._doerr_epsilon = 0.25  # self.dimension ** (-0.01)
-            self._doerr_gamma = 1 - 2 / self.dimension
+            self._doerr_gamma = max(0.0, 1 - 2 / self.dimension)
             self._doerr_current_best = float("inf")
             i = 3
             j = 2
-- 
2.43.0


From 00fdd1190c0470fe4f7bd5355151320307e43e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 11/93] fix: anisotropic EMNA mixes candidates asked with
 scalar and vector sigmas

---
 nevergrad/optimization/optimizerlib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index ddf32d4..79a1500 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3733,11 +3733,10 @@ class _EMNA(base.Optimizer):
                 if (
                     self.popsize.llambda < self.min_coef_parallel_context * self.dimension
                 ):  # Population size not large enough for emna
+                    # parents asked at different times may hold a scalar or one sigma per coordinate
+                    unit = 1.0 if self.isotropic else np.ones(self.dimension)
                     self.sigma = np.exp(
-                        np.sum(
-                            np.log([c._meta["sigma"] for c in self.parents]),
-                            axis=0 if self.isotropic else None,  # type: ignore
-                        )
+                        np.sum(np.log([c._meta["sigma"] * unit for c in self.parents]), axis=0)
                         / self.popsize.mu
                     )
                 else:
-- 
2.43.0


From 0fa742798d5e3f2b5283fbd0ac206ac903799d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 12/93] fix: a CMA in dimension 1 switches all other CMA
 instances to fcmaes

The flag was set on the configuration shared by all optimizers created by the
same family, including the running ones.
---
 nevergrad/optimization/optimizerlib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 79a1500..7bd7f99 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -733,6 +733,8 @@ class _CMA(base.Optimizer):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         self.algorithm = algorithm
         self._config = ParametrizedCMA() if config is None else config
+        # dimension 1 is not supported by cma (the config is shared by all instances, don't modify it)
+        self._fcmaes = self._config.fcmaes or self.dimension == 1
         pop = self._config.popsize
         self._popsize = (
             max(num_workers, 4 + int(self._config.popsize_factor * np.log(self.dimension)))
@@ -752,12 +754,10 @@ class _CMA(base.Optimizer):
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
         scale_multiplier = 1.0
-        if self.dimension == 1:
-            self._config.fcmaes = True
         if p.helpers.Normalizer(self.parametrization).fully_bounded:
             scale_multiplier = 0.3 if self.dimension < 18 else 0.15
-        if self._es is None or (not self._config.fcmaes and self._es.stop()):
-            if not self._config.fcmaes:
+        if self._es is None or (not self._fcmaes and self._es.stop()):
+            if not self._fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
                 inopts = dict(
@@ -811,7 +811,7 @@ class _CMA(base.Optimizer):
         if len(self._to_be_told) >= self.es.popsize:
             listx = [c._meta[self._CACHE_KEY] for c in self._to_be_told]
             listy = [c.loss for c in self._to_be_told]
-            args = (listy, listx) if self._config.fcmaes else (listx, listy)
+            args = (listy, listx) if self._fcmaes else (listx, listy)
             try:
                 self.es.tell(*args)
             except (RuntimeError, AssertionError):
@@ -835,7 +835,7 @@ class _CMA(base.Optimizer):
                 pass
         if self._es is None:
             return pessimistic
-        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._config.fcmaes else self.es.result.xbest
+        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._fcmaes else self.es.result.xbest
         if cma_best is None:
             return pessimistic
         return cma_best
-- 
2.43.0


From adf072539e5be69aa24695d831a055cc881d869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 13/93] fix: discarding a uid leaves duplicates of it in the
 queue

An individual told or asked several times was still proposed as a parent after
its removal from the population (KeyError at ask).
---
 nevergrad/optimization/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..7b7e6da 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -345,9 +345,10 @@ class UidQueue:
             self.asked.discard(uid)
 
     def discard(self, uid: str) -> None:
+        """Removes the uid from both queues (it can be asked and/or told several times)"""
         if uid in self.asked:
             self.asked.discard(uid)
-        else:
+        while uid in self.told:
             self.told.remove(uid)
 
 
-- 
2.43.0


From cd1a189f69462deea4a996028357406e6f601c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 14/93] fix: high speed CMA recommendation needs enough told
 points (not asked ones)

---
 nevergrad/optimization/optimizerlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 7bd7f99..303b2fe 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -825,9 +825,8 @@ class _CMA(base.Optimizer):
             reference=self.parametrization
         )
         d = self.dimension
-        n = self.num_ask
         sample_size = int(d * d / 2 + d / 2 + 3)
-        if self._config.high_speed and n >= sample_size:
+        if self._config.high_speed and len(self.archive) >= sample_size:
             try:
                 data = learn_on_k_best(self.archive, sample_size, self.algorithm)
                 return data  # type: ignore
-- 
2.43.0


From 958ad4f58ba7042bdff1872c95875a196c386da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 15/93] fix: portfolios only skip busy sequential optimizers,
 and finished one-shot designs

Follow-up of the previous portfolio fix: turns of busy optimizers could be given
to a one-shot design which was over.
---
 nevergrad/optimization/optimizerlib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 303b2fe..9c29853 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2056,8 +2056,11 @@ class Portfolio(base.Optimizer):
                     self.optims
                 ), f"{optim_index}, {self.turns}, {len(self.optims)} {self.num_times} {self.str_info} {self.optims}"
                 opt = self.optims[optim_index]
-                if len(opt._asked) < opt.num_workers:  # else all its workers are busy (can deadlock if sequential)
-                    break
+                if opt.no_parallelization and opt._asked:
+                    continue  # asking a busy sequential optimizer can deadlock
+                if opt.one_shot and opt.budget is not None and opt.num_ask >= opt.budget:
+                    continue  # the design is over, it can't take the turns of busy optimizers
+                break
             # break
             # if opt.num_workers > opt.num_ask - (opt.num_tell):  # - opt.num_tell_not_asked):
             #     # if opt.num_workers > opt.num_ask - (opt.num_tell - opt.num_tell_not_asked):
-- 
2.43.0


From 6a0dec4b7c5fcaa8d3f8e0c979e0ed0e73a2059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 16/93] fix: losses with a single element are treated as floats
 in tell

[3] failed with an AttributeError, and values such as [nan] were not clipped.
---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 2d16fc0..38a9fbb 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -334,6 +334,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         will use this suggestion.
         """
         # Check loss type
+        if isinstance(loss, (tuple, list, np.ndarray)) and np.shape(loss) == (1,):
+            loss = loss[0]  # only one objective
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
             loss = float(loss)
@@ -346,7 +348,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
+            loss = np.asarray(loss, dtype=float).ravel()
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From 25539835befea8d5583229eb3b9e4b1557c9e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 17/93] fix: voronoi crossover on non-array parametrizations
 and in dimension 1

---
 nevergrad/optimization/differentialevolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..666a686 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -28,9 +28,8 @@ class Crossover:
             self.CR = self.random_state.uniform(0.0, 1.0)
         elif crossover not in ["twopoints", "onepoint", "rotated_twopoints", "voronoi"]:
             raise ValueError(f'Unknown crossover "{crossover}"')
-        self.shape = (
-            np.array(parameter.value).shape if (crossover == "voronoi" and parameter is not None) else None
-        )
+        value = None if crossover != "voronoi" or parameter is None else parameter.value
+        self.shape = value.shape if isinstance(value, np.ndarray) else None  # only arrays have a shape
 
     def apply(self, donor: np.ndarray, individual: np.ndarray) -> None:
         dim = donor.size
@@ -83,7 +82,8 @@ class Crossover:
         shape = self.shape
         if shape is None or len(shape) < 2:
             warnings.warn("Voronoi DE needs a shape.")
-            self.twopoints(donor, individual)
+            if donor.size > 1:  # else there is nothing to recombine
+                self.twopoints(donor, individual)
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-- 
2.43.0


From 342b0fdddc7a72470b58e2c2370be383c4ebbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 18/93] fix: voronoi crossover uses the global random state

---
 nevergrad/optimization/differentialevolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 666a686..8b197b3 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -87,10 +87,10 @@ class Crossover:
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-        x1 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x2 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x3 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x4 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
+        x1 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x2 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x3 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x4 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
         it = np.nditer(local_donor, flags=["multi_index"])
         for _ in it:
             d1 = np.linalg.norm(np.array(it.multi_index) - x1)
-- 
2.43.0


From 6ef229924899558e396bc31dfb3d38b8e009e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 19/93] fix: error at deletion of recast optimizers whose
 construction was refused

---
 nevergrad/optimization/recaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index 4cda0d9..a478ec9 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -151,6 +151,7 @@ class RecastOptimizer(base.Optimizer):
     """
 
     recast = True
+    _messaging_thread: tp.Optional[MessagingThread] = None  # instantiate at runtime
 
     def __init__(
         self,
@@ -159,7 +160,7 @@ class RecastOptimizer(base.Optimizer):
         num_workers: int = 1,
     ) -> None:
         super().__init__(parametrization, budget, num_workers=num_workers)
-        self._messaging_thread: tp.Optional[MessagingThread] = None  # instantiate at runtime
+        self._messaging_thread = None
 
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[..., tp.Any]], tp.Optional[tp.ArrayLike]]:
         """Return an optimization procedure function (taking a function to optimize as input)
-- 
2.43.0


From c1589777e4b76155d7551b37452372dfb8e13f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 20/93] fix: a foreign tell breaks the alternance of SPSA (asks
 nan)

---
 nevergrad/optimization/optimizerlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 9c29853..639f769 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1607,6 +1607,10 @@ class SPSA(base.Optimizer):
         if self.init and self.yp is not None and self.ym is not None:
             self.init = False
 
+    def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        # only the asked perturbations provide a gradient (and the ask/tell alternance must not be modified)
+        pass
+
     def _internal_provide_recommendation(self) -> tp.ArrayLike:
         return self.avg
 
-- 
2.43.0


From cf6073fca6a7c659054ca899702527cfadcfe4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 21/93] fix: portfolios detect members declared sequential by
 their configuration as busy

The no_parallelization flag of configured optimizers is set on the configuration and
not on the instance, so that busy members were asked again and the ask never returned.
---
 nevergrad/optimization/optimizerlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 639f769..e7ddb2e 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2000,9 +2000,12 @@ class Portfolio(base.Optimizer):
         # )
         assert num * sub_workers >= num_workers
         turns = []
+        # the flag can be set on the class or configuration only, and not on the instance
+        self._sequential: tp.List[bool] = []
         self.str_info = ""
         for index, opt in enumerate(optimizers):
             if isinstance(opt, base.Optimizer):
+                self._sequential.append(opt.no_parallelization)
                 self.str_info += f"XX{opt}"
                 if opt.parametrization is not self.parametrization:
                     raise errors.NevergradValueError(
@@ -2016,6 +2019,7 @@ class Portfolio(base.Optimizer):
                 self.optims.append(opt)
                 continue
             Optim: base.OptCls = registry[opt] if isinstance(opt, str) else opt
+            self._sequential.append(Optim.no_parallelization)
             # assert sub_workers == 1 or not Optim.no_parallelization
             self.optims.append(
                 Optim(
@@ -2060,7 +2064,7 @@ class Portfolio(base.Optimizer):
                     self.optims
                 ), f"{optim_index}, {self.turns}, {len(self.optims)} {self.num_times} {self.str_info} {self.optims}"
                 opt = self.optims[optim_index]
-                if opt.no_parallelization and opt._asked:
+                if self._sequential[optim_index] and opt._asked:
                     continue  # asking a busy sequential optimizer can deadlock
                 if opt.one_shot and opt.budget is not None and opt.num_ask >= opt.budget:
                     continue  # the design is over, it can't take the turns of busy optimizers
-- 
2.43.0


From 276b8aacfcd9032ae63c1ed54183a6a6d1082e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 22/93] fix: NSGA-II ranking compares candidates by dominance

Winning on more objectives is not dominance with 3 objectives or more, and is not
transitive: with cycles some candidates were in no front, and a population could get empty.
---
 nevergrad/optimization/multiobjective/nsga2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..5a24b8b 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -123,11 +123,11 @@ class FastNonDominatedRanking:
         :param candidate1: Candidate.
         :param candidate2: Candidate.
         """
-        one_wins = np.sum(candidate1.losses < candidate2.losses)
-        two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        one_wins = np.any(candidate1.losses < candidate2.losses)
+        two_wins = np.any(candidate2.losses < candidate1.losses)
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From d4c086a0b7f3e9a148c797b63b28da580bd91a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:55 +0000
Subject: [PATCH 23/93] fix: evolution strategies rank each told candidate once

Initial candidates could be ranked twice (waiting and in the population), or before
being told, in which case the NSGA-II selection failed.
---
 nevergrad/optimization/es.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..cbb7d79 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -78,7 +78,10 @@ class _EvolutionStrategy(base.Optimizer):
 
     def _select(self) -> None:
         choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
+        # initial candidates can be both waiting and in the population
+        choices = list({x.uid: x for x in choices}.values())
         if self._rank_method is not None and self.num_objectives > 1:
+            choices = [x for x in choices if x.loss is not None]  # initial candidates may not be told yet
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
         else:
-- 
2.43.0


From ff205ced70a3e80745d4c9cf11ae0912dcd754bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:00 +0000
Subject: [PATCH 24/93] fix: multi-objective DE discards the population key of
 the replaced point

The lineage of points which were not asked is not their key in the population (KeyError),
and the replaced point depended on the order of random uids.
---
 nevergrad/optimization/differentialevolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 8b197b3..17d87e2 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -289,10 +289,10 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = {c.uid for c in self.population.values()} - pareto_uids
+                    # the lineage of points which were not asked is not the key of the population
+                    non_pareto_pop = [uid for uid, c in self.population.items() if c.uid not in pareto_uids]
                     if non_pareto_pop:
-                        nonpareto = {c.uid: c for c in self.population.values()}[list(non_pareto_pop)[0]]
-                        discardable = nonpareto.heritage["lineage"]
+                        discardable = non_pareto_pop[0]
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
-- 
2.43.0


From 99bf14aac88bddda0d5fa04b0fb6bc352c4a4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 25/93] fix: scalarized multi-objective losses are clipped like
 float losses

Dominated points got an infinite loss, and undefined losses NaN, which optimizers such as
SQP turn into NaN points.
---
 nevergrad/optimization/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 38a9fbb..2c90a5b 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -387,6 +387,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             candidate._losses = loss
         if not isinstance(loss, float):
             loss = self._preprocess_multiobjective(candidate)
+            if not loss < 5.0e20:  # pylint: disable=unneeded-not
+                loss = 5.0e20  # dominated points can get inf, and losses may be undefined: clip as for floats
         # call callbacks for logging etc...
         candidate.loss = loss
         assert isinstance(loss, float)
-- 
2.43.0


From 841ec720c6117f2f61a642414f27d73e7b5ed1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 26/93] fix: an unfinished recast optimizer blocks the exit of
 the interpreter

---
 nevergrad/optimization/recaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index a478ec9..606432c 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -48,7 +48,7 @@ class _MessagingThread(threading.Thread):
 
     # pylint: disable=too-many-instance-attributes
     def __init__(self, caller: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> None:
-        super().__init__()
+        super().__init__(daemon=True)  # an unfinished optimization must not block the exit of the interpreter
         self.messages_ask: tp.Any = queue.Queue()
         self.messages_tell: tp.Any = queue.Queue()
         self.call_count = 0
-- 
2.43.0


From db2e88bd42962ec79b5cc5f7e4b08eb9450360f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 27/93] fix: the recommendation of recast optimizers depends on
 the speed of their thread

At the end of a run the thread may or may not have finished when the recommendation is
requested, and the recommendation was its output or the best point accordingly.
---
 nevergrad/optimization/recaster.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index 606432c..1372ee1 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -95,6 +95,7 @@ class MessagingThread:
     """Encapsulate the inner thread, so that kill order is automatically called at deletion."""
 
     def __init__(self, caller: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> None:
+        self.ended = False  # whether the last message of the thread was received
         self._thread = _MessagingThread(caller, *args, **kwargs)
         self._thread.start()
 
@@ -193,11 +194,14 @@ class RecastOptimizer(base.Optimizer):
         raise base.errors.TellNotAskedNotSupportedError
 
     def _internal_provide_recommendation(self) -> tp.Optional[tp.ArrayLike]:
-        """Returns the underlying optimizer output if provided (ie if the optimizer did finish)
+        """Returns the underlying optimizer output if provided (ie if the optimizer is known to be finished)
         else the best pessimistic point.
         """
-        if self._messaging_thread is not None and self._messaging_thread.output is not None:
-            return self._messaging_thread.output
+        thread = self._messaging_thread
+        # the thread can end at any time after a tell, so the output is only used once an ask noticed it,
+        # otherwise the recommendation would depend on the speed of the thread
+        if thread is not None and thread.ended and thread.output is not None:
+            return thread.output
         else:
             return None  # use default
 
@@ -271,6 +275,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if alive:
             point = self._messaging_thread.messages_ask.get()
             if point is None or isinstance(point, Exception):
+                self._messaging_thread.ended = True
                 self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(point, Exception):
                 raise point
@@ -376,6 +381,7 @@ class BatchRecastOptimizer(RecastOptimizer):
         if alive:
             points = self._messaging_thread.messages_ask.get()
             if points is None or isinstance(points, Exception):
+                self._messaging_thread.ended = True
                 self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(points, Exception):
                 raise points
-- 
2.43.0


From 3392594cf3fce7d0e4de49cfd3999e7f0c3d3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 28/93] fix: EMNA divides by zero with a budget lower than 4

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index e7ddb2e..6447023 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3688,7 +3688,7 @@ class _EMNA(base.Optimizer):
             self.popsize.llambda = max(self.popsize.llambda, num_workers)
             if budget is not None and self.popsize.llambda > budget:
                 self.popsize.llambda = budget
-                self.popsize.mu = self.popsize.llambda // 4
+                self.popsize.mu = max(1, self.popsize.llambda // 4)
                 warnings.warn(
                     "Budget may be too small in front of the dimension for EMNA",
                     errors.InefficientSettingsWarning,
-- 
2.43.0


From 88e0a04e76d11532fe4619139ad91a2fd8e2c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 29/93] fix: rescaled optimizers fail with a budget of 1 (null
 scale)

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 6447023..ffb4a20 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1633,7 +1633,7 @@ class _Rescaled(base.Optimizer):
         self._subcandidates: tp.Dict[str, p.Parameter] = {}
         if scale is None:
             assert self.budget is not None, "Either scale or budget must be known in _Rescaled."
-            scale = math.sqrt(math.log(self.budget) / self.dimension)
+            scale = math.sqrt(math.log(max(2, self.budget)) / self.dimension)
         self.scale = scale
         self.shift = shift
         assert self.scale != 0.0, "scale should be non-zero in Rescaler."
-- 
2.43.0


From 486f9c8e11917450879ab5baa086a1cb394b56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 30/93] fix: mutation of unordered TransitionChoice with
 parameters as choices

---
 nevergrad/parametrization/choice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index d735e48..53d1e57 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -226,7 +226,7 @@ class TransitionChoice(BaseChoice):
 
     def mutate(self) -> None:
         if self._ref is not None:
-            new = self.random_state.normal(size=self.indices.value.size)
+            new = self.random_state.normal(size=self.dimension)  # including parameters in the choices
             self._internal_set_standardized_data(new, self._ref)
             return
         # force random_state sync
-- 
2.43.0


From 7f6cc37be413d0dbfb587e44095ba4e231cef127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 31/93] fix: auto-rescaled one-shot samplers ask nan in
 dimension 1

---
 nevergrad/optimization/oneshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/oneshot.py b/nevergrad/optimization/oneshot.py
index f42c5e6..0e23444 100644
--- a/nevergrad/optimization/oneshot.py
+++ b/nevergrad/optimization/oneshot.py
@@ -164,7 +164,7 @@ class _RandomSearch(OneShotOptimizer):
         if isinstance(scale, str) and scale == "auto":
             # Some variants use a rescaling depending on the budget and the dimension (1st version).
             assert self.budget is not None
-            scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if isinstance(scale, str) and scale == "autotune":
             assert self.budget is not None
             scale = np.sqrt(np.log(self.budget) / self.dimension)
@@ -327,7 +327,7 @@ class _SamplingSearch(OneShotOptimizer):
             sample = self._rescaler.apply(sample)
         if self.autorescale is True or self.autorescale == "auto":
             assert self.budget is not None
-            self.scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            self.scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if self.autorescale == "autotune":
             assert self.budget is not None
             self.scale = np.sqrt(np.log(self.budget) / self.dimension)
-- 
2.43.0


From ae57a93179c9405adde7a0a3d6a0e28ceb52c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 32/93] fix: HyperOpt search space of scalars with no or one
 bound

---
 nevergrad/optimization/externalbo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/externalbo.py b/nevergrad/optimization/externalbo.py
index 934b1f2..f6a0ec4 100644
--- a/nevergrad/optimization/externalbo.py
+++ b/nevergrad/optimization/externalbo.py
@@ -58,7 +58,10 @@ def _get_search_space(param_name, param):
         return space
 
     elif isinstance(param, (p.Log, p.Scalar)):
-        if (param.bounds[0][0] is None) or (param.bounds[1][0] is None):
+        unbounded = [bound is None or bound[0] is None for bound in param.bounds]
+        if any(unbounded):
+            if isinstance(param, p.Scalar) and not all(unbounded):
+                raise NotImplementedError  # the lognormal distribution does not match the bound
             if isinstance(param, p.Scalar) and not param.integer:
                 return hp.lognormal(label=param_name, mu=0, sigma=1)
             raise ValueError(f"Scalar {param_name} not bounded.")
-- 
2.43.0


From fcd94add32d8c5376bbc26d653a6005d2d5ea5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 33/93] fix: draw from the random state of the parametrization
 instead of the global one

---
 .../optimization/differentialevolution.py     |  2 +-
 nevergrad/optimization/metamodel.py           | 15 ++++--
 nevergrad/optimization/optimizerlib.py        | 47 +++++++++++--------
 nevergrad/optimization/recastlib.py           | 12 +++--
 4 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 17d87e2..068cae6 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -161,7 +161,7 @@ class _DE(base.Optimizer):
         sample_size = int((self.dimension * (self.dimension - 1)) / 2 + 2 * self.dimension + 1)
         if self._config.high_speed and len(self.archive) >= sample_size:
             try:
-                meta_data = metamodel.learn_on_k_best(self.archive, sample_size)
+                meta_data = metamodel.learn_on_k_best(self.archive, sample_size, rng=self._rng)
                 return self.parametrization.spawn_child().set_standardized_data(meta_data)
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
diff --git a/nevergrad/optimization/metamodel.py b/nevergrad/optimization/metamodel.py
index 7cbdd2e..8425581 100644
--- a/nevergrad/optimization/metamodel.py
+++ b/nevergrad/optimization/metamodel.py
@@ -22,12 +22,15 @@ def learn_on_k_best(
     degree: int = 2,
     shape: tp.Any = None,
     para: tp.Any = None,
+    rng: tp.Optional[np.random.RandomState] = None,
 ) -> tp.ArrayLike:
     """Approximate optimum learnt from the k best.
 
     Parameters
     ----------
     archive: utils.Archive[utils.Value]
+    rng: optional RandomState
+        random state of the stochastic models (default: the global one)
     """
     # print("learn_on_k_best", k, algorithm, flush=True)
     items = list(archive.items_as_arrays())
@@ -35,7 +38,7 @@ def learn_on_k_best(
     if algorithm == "image":
         k = len(archive) // 6
     if algorithm == "voxelize":
-        k = int(np.random.randint(len(archive) // 6))
+        k = int((np.random if rng is None else rng).randint(len(archive) // 6))
         if k < 2:
             k = 2
     # Select the k best.
@@ -73,8 +76,8 @@ def learn_on_k_best(
                 outputs += [[values]]
         from sklearn.neural_network import MLPRegressor
 
-        nw = np.random.choice([16, 64, 256])
-        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200)
+        nw = (np.random if rng is None else rng).choice([16, 64, 256])
+        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200, random_state=rng)
         # print("learning on ", len(inputs), " and ", len(outputs))
         # print("dim input = ", len(inputs[0]), inputs[np.random.randint(len(inputs))])
         inputs = np.array(inputs)  # type: ignore
@@ -117,7 +120,7 @@ def learn_on_k_best(
     if algorithm == "neural":
         from sklearn.neural_network import MLPRegressor
 
-        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs")
+        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs", random_state=rng)
     elif algorithm in ["image"]:
         from sklearn.svm import SVR
         import scipy.ndimage as ndimage
@@ -146,7 +149,7 @@ def learn_on_k_best(
     elif algorithm == "rf":
         from sklearn.ensemble import RandomForestRegressor
 
-        model = RandomForestRegressor()
+        model = RandomForestRegressor(random_state=rng)
     else:
         assert algorithm == "quad", f"Metamodelling algorithm {algorithm} not recognized."
         # We need SKLearn.
@@ -183,6 +186,8 @@ def learn_on_k_best(
                 parametrization=para if (para is not None and algorithm == "image") else dimension,
                 budget=45 * dimension + 30,
             )
+            if rng is not None:
+                optimizer.parametrization.random_state = rng
             # limit to 20s at most
             optimizer.register_callback("ask", callbacks.EarlyStopping.timer(20))
             if "image" in algorithm:
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index ffb4a20..c297651 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -75,11 +75,12 @@ def smooth_copy(array: p.Array, possible_radii: tp.Optional[tp.List[int]] = None
     except Exception as e:
         assert False, f"{e} in smooth_copy, {radii}, {np.prod(radii)}"
     # DE style operator.
-    invfreq = 4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+    rng = array.random_state
+    invfreq = 4 if len(possible_radii) == 1 else max(4, rng.randint(max(4, len(array.value.flatten()))))
     indices = array.random_state.randint(invfreq, size=value.shape) == 0
     while np.sum(indices) == 0 and len(possible_radii) > 1:
         invfreq = (
-            4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+            4 if len(possible_radii) == 1 else max(4, rng.randint(max(4, len(array.value.flatten()))))
         )
         indices = array.random_state.randint(invfreq, size=value.shape) == 0
     value[indices] = value2[indices]
@@ -280,7 +281,7 @@ class _OnePlusOne(base.Optimizer):
             and self._num_ask % max(self.num_workers + 1, self.antismooth) == 0
             and isinstance(self.parametrization, p.Array)
         ):
-            possible_radii = [3] if not self.super_radii else [3, 3 + np.random.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
+            possible_radii = [3] if not self.super_radii else [3, 3 + self._rng.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
             self.suggest(smooth_copy(pessimistic, possible_radii=possible_radii).value)  # type: ignore
         if self.num_objectives > 1 and self.use_pareto:  # multiobjective
             # revert to using a sample of the pareto front (not "pessimistic" though)
@@ -329,7 +330,7 @@ class _OnePlusOne(base.Optimizer):
                 mutation_rate = max(0.1 / self.dimension, self._global_mr)
                 assert mutation_rate > 0.0
                 individual_mutation_rate = 1.0 / (
-                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * np.random.randn()))
+                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * self._rng.randn()))
                 )
                 # print(f"pd={pessimistic_data}_imr={individual_mutation_rate}, d={self.dimension}, arity={self.arity_for_discrete_mutation}")
                 data = mutator.portfolio_discrete_mutation(
@@ -828,7 +829,7 @@ class _CMA(base.Optimizer):
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and len(self.archive) >= sample_size:
             try:
-                data = learn_on_k_best(self.archive, sample_size, self.algorithm)
+                data = learn_on_k_best(self.archive, sample_size, self.algorithm, rng=self._rng)
                 return data  # type: ignore
             except MetaModelFailure:  # Failures in the metamodeling can happen.
                 pass
@@ -1641,7 +1642,7 @@ class _Rescaled(base.Optimizer):
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
         if self.shift is not None:
-            data = data + self.shift * np.random.randn(self.dimension)
+            data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
 
@@ -2183,7 +2184,13 @@ class _MetaModel(base.Optimizer):
         if len(self.archive) >= sample_size and not self._num_ask % freq:
             try:
                 data = learn_on_k_best(
-                    self.archive, sample_size, self.algorithm, self.degree, shape, self.parametrization
+                    self.archive,
+                    sample_size,
+                    self.algorithm,
+                    self.degree,
+                    shape,
+                    self.parametrization,
+                    rng=self._rng,
                 )
 
                 candidate = self.parametrization.spawn_child().set_standardized_data(data)
@@ -2916,7 +2923,7 @@ class F3SQPCMA(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / np.random.rand())))(
+            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / self._rng.rand())))(
                 self.parametrization, num_workers=1
             )
             for _ in range(num_workers - cma_workers)
@@ -5822,7 +5829,7 @@ class NgIoh14(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5838,7 +5845,7 @@ class NgIoh14(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=0.70, no_crossing=True)
@@ -5945,7 +5952,7 @@ class NgIoh13(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5961,7 +5968,7 @@ class NgIoh13(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=1.00, no_crossing=True)
@@ -6069,7 +6076,7 @@ class NgIoh15(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6177,7 +6184,7 @@ class NgIoh12(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6288,7 +6295,7 @@ class NgIoh16(NgIoh11):
                         Rescaled(
                             base_optimizer=Carola14,
                             # base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 # print("NgIoh16 chooses ", optimizers)
@@ -6400,7 +6407,7 @@ class NgIoh17(NgIoh11):
                         Rescaled(
                             # base_optimizer=Carola2,
                             base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -7049,7 +7056,7 @@ class NgIoh18(NgIoh11):
                             Rescaled(
                                 # base_optimizer=Carola2,
                                 base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                scale=np.random.rand() * 2.0,
+                                scale=self._rng.rand() * 2.0,
                             )
                         ]
                         if k % 3 == 2
@@ -7058,7 +7065,7 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    shift=np.random.randn(),
+                                    shift=self._rng.randn(),
                                 )
                             ]
                             if k % 3 == 0
@@ -7066,8 +7073,8 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    scale=np.random.rand() * 2.0,
-                                    shift=np.random.randn(),
+                                    scale=self._rng.rand() * 2.0,
+                                    shift=self._rng.randn(),
                                 )
                             ]
                         )
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index efedefa..bfd2bdd 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -185,6 +185,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 # opt.set_initial_step([0.05, 0.05])
                 opt.set_maxeval(budget)
 
+                nlopt.srand(int(weakself._rng.randint(2**31 - 1)))  # some methods are stochastic
                 # Start the optimization with the first guess
                 firstguess = 0.5 * np.ones(weakself.dimension)
                 best_x = opt.optimize(firstguess)
@@ -440,6 +441,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 num_calls = 0
                 while budget - num_calls > 0:
                     options = {"maxfevals": budget - num_calls, "verbose": -9}
+                    # by default cma seeds the global random state with the time
+                    options.update(randn=weakself._rng.randn, seed=np.nan)
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
@@ -452,9 +455,10 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + np.random.uniform() * np.random.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + weakself._rng.uniform()
+                        * weakself._rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else np.random.randn(weakself.dimension)
+                        else weakself._rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
@@ -620,12 +624,12 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         if weakself.algorithm == "CMAES":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
-            algorithm = CMAES(x0=np.random.random(problem.n_var), maxfevals=weakself.budget)
+            algorithm = CMAES(x0=weakself._rng.random_sample(problem.n_var), maxfevals=weakself.budget)
         elif weakself.algorithm == "BIPOP":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
             algorithm = CMAES(
-                x0=np.random.random(problem.n_var),
+                x0=weakself._rng.random_sample(problem.n_var),
                 sigma=0.5,
                 restarts=2,
                 maxfevals=weakself.budget,
-- 
2.43.0


From 76015b0ee48aaa2f2c464019e7998ac62efeefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 34/93] fix: reading the evolution strategy of CMA draws no
 random values

---
 nevergrad/optimization/optimizerlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index c297651..e09f937 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -754,10 +754,10 @@ class _CMA(base.Optimizer):
 
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
-        scale_multiplier = 1.0
-        if p.helpers.Normalizer(self.parametrization).fully_bounded:
-            scale_multiplier = 0.3 if self.dimension < 18 else 0.15
         if self._es is None or (not self._fcmaes and self._es.stop()):
+            scale_multiplier = 1.0
+            if p.helpers.Normalizer(self.parametrization).fully_bounded:  # may draw random values
+                scale_multiplier = 0.3 if self.dimension < 18 else 0.15
             if not self._fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
-- 
2.43.0


From 1609333abbafa00351911220858edcaaceb46655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 35/93] fix: Pareto subsets are distinct members of the front
 for every parametrization

---
 nevergrad/optimization/multiobjective/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..6e58717 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -211,6 +211,10 @@ class ParetoFront:
         """Retrieve current values, which may not be a Pareto front, as they have not been filtered."""
         return self._pareto
 
+    def _sample(self, size: int) -> tp.List[p.Parameter]:
+        """Random subset of the current values"""
+        return [self._pareto[k] for k in self._rng.choice(len(self._pareto), size, replace=False)]
+
     # pylint: disable=too-many-branches
     def get_front(
         self, size: tp.Optional[int] = None, subset: str = "random", subset_tentatives: int = 12
@@ -237,10 +241,10 @@ class ParetoFront:
         if self._pareto_needs_filtering:
             self._filter_pareto_front()
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
-            return self._pareto
+            return list(self._pareto)
         if subset == "random":
-            return self._rng.choice(self._pareto, size).tolist()  # type: ignore
-        tentatives = [self._rng.choice(self._pareto, size).tolist() for _ in range(subset_tentatives)]  # type: ignore
+            return self._sample(size)
+        tentatives = [self._sample(size) for _ in range(subset_tentatives)]
         if self._hypervolume is None and subset == "hypervolume":
             raise RuntimeError("Hypervolume subsetting not supported as hypervolume not in use")
         hypervolume = self._hypervolume
-- 
2.43.0


From 0950a82bf39783cf77b99644eaea6faa64b89862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 36/93] fix: points over the upper bounds do not count in the
 hypervolume

---
 nevergrad/optimization/multiobjective/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index 6e58717..426378a 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -129,7 +129,9 @@ class HypervolumePareto:
         if self._hypervolume is None:
             self._hypervolume = HypervolumeIndicator(self._upper_bounds)
             self._pf._hypervolume = self._hypervolume
-        new_volume = self._hypervolume.compute([pa.losses for pa in self._pf.get_raw()] + [losses])
+        # points over the upper bounds can be stored, but the indicator requires points below
+        stored = [pa.losses for pa in self._pf.get_raw() if (pa.losses <= self._upper_bounds).all()]
+        new_volume = self._hypervolume.compute(stored + [losses])
         if new_volume > self._best_volume:
             # This point is good! Let us give him a great mono-fitness value.
             self._best_volume = new_volume
-- 
2.43.0


From 597ed7746617293690cbcd6b72c5e3fedae60e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 37/93] fix: Pareto subsets follow the seed of the
 parametrization

---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 2c90a5b..76b59f0 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -437,7 +437,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
     def _preprocess_multiobjective(self, candidate: p.Parameter) -> tp.FloatLoss:
         if self._hypervolume_pareto is None:
             self._hypervolume_pareto = mobj.HypervolumePareto(
-                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND, no_hypervolume=self._no_hypervolume
+                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND,
+                seed=self._rng,
+                no_hypervolume=self._no_hypervolume,
             )
         return self._hypervolume_pareto.add(candidate)
 
-- 
2.43.0


From 6798307f093a303ace83dc829e833ba3c1ca3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 38/93] fix: hypervolume of points with equal coordinates in
 four objectives and more

---
 nevergrad/optimization/multiobjective/hypervolume.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/hypervolume.py b/nevergrad/optimization/multiobjective/hypervolume.py
index d3581c8..7c3358a 100644
--- a/nevergrad/optimization/multiobjective/hypervolume.py
+++ b/nevergrad/optimization/multiobjective/hypervolume.py
@@ -92,8 +92,9 @@ class VectorLinkedList:
     @staticmethod
     def sort_by_index(node_list: tp.List[VectorNode], dimension_index: int) -> tp.List[VectorNode]:
         """Returns a sorted list of `VectorNode`, with the sorting key defined by the
-        `dimension_index`-th coordinates of the nodes in the `node_list`."""
-        return sorted(node_list, key=lambda node: node.coordinates[dimension_index])
+        `dimension_index`-th coordinates of the nodes in the `node_list`.
+        Ties are broken by the other coordinates so that a point is never before a point dominating it."""
+        return sorted(node_list, key=lambda node: (node.coordinates[dimension_index], *node.coordinates))
 
     def __str__(self) -> str:
         string = [str([str(node) for node in self.iterate(dimension)]) for dimension in range(self.dimension)]
-- 
2.43.0


From c7b907301559cbb19e5288ad78c2851eaf4a23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 39/93] fix: areas of single points in the hypervolume of six
 objectives and more

---
 nevergrad/optimization/multiobjective/hypervolume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/hypervolume.py b/nevergrad/optimization/multiobjective/hypervolume.py
index 7c3358a..4218090 100644
--- a/nevergrad/optimization/multiobjective/hypervolume.py
+++ b/nevergrad/optimization/multiobjective/hypervolume.py
@@ -49,7 +49,8 @@ class VectorNode:
 
     def configure_area(self, dimension: int) -> None:
         self.area[0] = 1.0
-        self.area[1 : dimension + 1] = [-self.area[i] * self.coordinates[i] for i in range(dimension)]
+        for i in range(dimension):
+            self.area[i + 1] = -self.area[i] * self.coordinates[i]
 
     @property
     def next(self) -> tp.List["VectorNode"]:
-- 
2.43.0


From 60910f3cc85b588d7a5428766afdd39fe6fb73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:27 +0000
Subject: [PATCH 40/93] fix: told vector losses are copied

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 76b59f0..3ebc19d 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -348,7 +348,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel()
+            loss = np.array(loss, dtype=float).ravel()  # copy, since it is stored
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From 3000eb8f87d1129386b18d25e1e1207123095afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 41/93] fix: values handed in and out of data parameters are
 copies

---
 nevergrad/parametrization/_layering.py |  4 ++--
 nevergrad/parametrization/data.py      | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..257f327 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -268,7 +268,7 @@ class Int(Layered, Filterable):
 
     def _layered_get_value(self) -> np.ndarray:
         if self._cache is not None:
-            return self._cache
+            return self._cache.copy()
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
@@ -282,7 +282,7 @@ class Int(Layered, Filterable):
             out = np.minimum(_to_int(bounds[1] - 0.5 + eps), out)
         # return out
         self._cache = out
-        return self._cache
+        return self._cache.copy()
 
     def _layered_del_value(self) -> None:
         self._cache = None  # clear cache!
diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..6159cdb 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -74,7 +74,7 @@ class Data(core.Parameter):
         if sum(x is None for x in [init, shape]) != 1:
             raise ValueError('Exactly one of "init" or "shape" must be provided')
         if init is not None:
-            init = np.asarray(init, dtype=float)  # , copy=False)
+            init = np.array(init, dtype=float)  # copy, since the array belongs to the caller
         else:
             assert isinstance(shape, (list, tuple)) and all(
                 isinstance(n, int) for n in shape
@@ -335,10 +335,10 @@ class Data(core.Parameter):
             raise ValueError(
                 f"Cannot set array of shape {self._value.shape} with value of shape {value.shape}"
             )
-        self._value = value
+        self._value = np.array(value, dtype=float)  # copy, since the array belongs to the caller
 
     def _layered_get_value(self) -> np.ndarray:
-        return self._value
+        return self._value.copy()  # modifying a value in place must not modify the parameter
 
     def _new_with_data_layer(self: D, name: str, *args: tp.Any, **kwargs: tp.Any) -> D:
         # pylint: disable=cyclic-import
@@ -511,6 +511,12 @@ class Log(Scalar):
         upper: tp.Optional[float] = None,
         mutable_sigma: bool = False,
     ) -> None:
+        if any(x is not None and not x > 0 for x in (init, lower, upper)):
+            raise errors.NevergradValueError("Init value and bounds of a Log parameter must be positive")
+        if lower is not None and upper is not None and not lower < upper:
+            raise errors.NevergradValueError(
+                f"Lower bounds {lower} should be strictly smaller than upper bounds {upper}"
+            )
         no_init = init is None
         bounded = all(a is not None for a in (lower, upper))
         if bounded:
-- 
2.43.0


From ddb3bf09ef7dc0864d086be21c41abdc907adb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 42/93] fix: data of the wrong size are refused instead of
 being broadcast

---
 nevergrad/parametrization/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 6159cdb..d1b1b45 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -299,6 +299,8 @@ class Data(core.Parameter):
     # pylint: disable=unused-argument
     def _internal_set_standardized_data(self: D, data: np.ndarray, reference: D) -> None:
         assert isinstance(data, np.ndarray)
+        if data.size != reference._value.size:
+            raise ValueError(f"Unexpected size {data.size} of data (expected {reference._value.size})")
         sigma = reference.sigma.value
         data_reduc = sigma * (data + reference._to_reduced_space()).reshape(reference._value.shape)
         self._value = data_reduc
-- 
2.43.0


From 3122d13895abc5550e1559aa1feb9b503639b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 43/93] fix: negative values are refused by exponential (Log)
 parameters

---
 nevergrad/parametrization/_datalayers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/_datalayers.py b/nevergrad/parametrization/_datalayers.py
index 3f60a7a..0ebc275 100644
--- a/nevergrad/parametrization/_datalayers.py
+++ b/nevergrad/parametrization/_datalayers.py
@@ -192,6 +192,8 @@ class Exponent(ForwardableOperation):
         return self._base**value
 
     def backward(self, value: tp.Any) -> tp.Any:
+        if np.any(np.asarray(value) < 0):
+            raise errors.NevergradValueError(f"Negative value {value} cannot be reached by an exponential")
         return np.log(value) / np.log(self._base)
 
 
-- 
2.43.0


From 387f9d9673100126b0ea048785525111dce360e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 44/93] fix: copies of parameters do not share function
 information and tabu memory

---
 nevergrad/parametrization/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index e285acd..bfe9d9a 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import uuid
 import warnings
 import numpy as np
@@ -421,6 +422,10 @@ class Parameter(Layered):
         child._frozen = False
         child._subobjects = self._subobjects.new(child)
         child._meta = {}
+        child.function = copy.copy(self.function)
+        child.tabu_set = set()
+        child.tabu_list = []
+        child.tabu_index = 0
         child.tabu_length = self.tabu_length
         child.real_world = self.real_world
         child.enforce_determinism = self.enforce_determinism
-- 
2.43.0


From d50fe7c421a36d14776f09a8f4ed9d938f145027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 45/93] fix: bounds transforms stay within their bounds and are
 invertible at saturation

---
 nevergrad/parametrization/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..3cb20e0 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -76,7 +76,7 @@ class Affine(Transform):
         super().__init__()
         self.a = bound_to_array(a)
         self.b = bound_to_array(b)
-        if not np.any(self.a):
+        if not np.all(self.a):
             raise ValueError('"a" parameter should be non-zero to prevent information loss.')
         self.name = f"Af({a},{b})"
 
@@ -168,7 +168,7 @@ class TanhBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.tanh(x)  # type: ignore
+        return np.clip(self._b + self._a * np.tanh(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
@@ -177,7 +177,7 @@ class TanhBound(BoundTransform):
                 f"Only data between {self.a_min} and {self.a_max} "
                 "can be transformed back (bounds lead to infinity)."
             )
-        return np.arctanh((y - self._b) / self._a)  # type: ignore
+        return np.arctanh(np.clip((y - self._b) / self._a, -1, 1))  # type: ignore
 
 
 class Clipping(BoundTransform):
@@ -243,13 +243,13 @@ class ArctanBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.arctan(x)  # type: ignore
+        return np.clip(self._b + self._a * np.arctan(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
-        return np.tan((y - self._b) / self._a)  # type: ignore
+        return np.tan(np.clip((y - self._b) / self._a, -np.pi / 2, np.pi / 2))  # type: ignore
 
 
 class CumulativeDensity(BoundTransform):
@@ -294,7 +294,7 @@ class CumulativeDensity(BoundTransform):
             self._back = stats.cauchy.ppf
 
     def forward(self, x: np.ndarray) -> np.ndarray:
-        return self._a * self._forw(x / self._scale) + self._b  # type: ignore
+        return np.clip(self._a * self._forw(x / self._scale) + self._b, self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         if (y > self.a_max).any() or (y < self.a_min).any():
-- 
2.43.0


From 0d7c42ab22475f42b83b736a651e42acde0a2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 46/93] fix: odd powers keep the sign, and bounded or modulo
 samples fall back when layers below cannot reach them

---
 nevergrad/parametrization/_datalayers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nevergrad/parametrization/_datalayers.py b/nevergrad/parametrization/_datalayers.py
index 0ebc275..9e429ee 100644
--- a/nevergrad/parametrization/_datalayers.py
+++ b/nevergrad/parametrization/_datalayers.py
@@ -159,6 +159,12 @@ class Modulo(BoundLayer):
         current = super()._layered_get_value()
         super()._layered_set_value(current - (current % self._module) + value)
 
+    def _layered_sample(self) -> Data:
+        try:
+            return super()._layered_sample()
+        except ValueError:  # the layers below cannot reach the sampled value
+            return super(BoundLayer, self)._layered_sample()  # type: ignore
+
 
 class ForwardableOperation(Operation):
     """Operation with simple forward and backward methods
@@ -208,6 +214,10 @@ class Power(ForwardableOperation):
         return value**self._power
 
     def backward(self, value: tp.Any) -> tp.Any:
+        if self._power % 2 == 1:  # odd powers are bijective
+            return np.sign(value) * np.abs(value) ** (1.0 / self._power)
+        if np.any(np.asarray(value) < 0):
+            raise errors.NevergradValueError(f"Negative value {value} cannot be reached by power {self._power}")
         return value ** (1.0 / self._power)
 
 
-- 
2.43.0


From 307b0606a91fec1e4d1c271c16200216e6647321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 47/93] fix: options of null probability are never selected

---
 nevergrad/parametrization/discretization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/discretization.py b/nevergrad/parametrization/discretization.py
index e071c56..7828293 100644
--- a/nevergrad/parametrization/discretization.py
+++ b/nevergrad/parametrization/discretization.py
@@ -128,5 +128,6 @@ class Encoder:
         if deterministic:
             return np.argmax(self.weights, axis=1)  # type: ignore
         cumprob = np.cumsum(self.probabilities(), axis=axis)
+        cumprob /= cumprob[:, -1:]  # exactly 1, so that an option is always selected
         rand = self._rng.rand(cumprob.shape[0], 1)
-        return np.argmin(cumprob < rand, axis=axis)  # type: ignore
+        return np.argmin(cumprob <= rand, axis=axis)  # type: ignore
-- 
2.43.0


From d41d4f21c4d7187fe1c3821e78fc4a7e4ab5ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 48/93] fix: containers keep the mutations of their content

---
 nevergrad/parametrization/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 4037b32..422d007 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -107,6 +107,9 @@ class Container(core.Parameter):
         child._content = {k: p.sample() for k, p in self._content.items()}
         return child
 
+    def _layered_mutate(self) -> None:
+        pass  # nothing specific here, already propagated to sub-objects (content)
+
     def _layered_recombine(self: D, *others: D) -> None:  # type: ignore
         pass  # nothing specific here, already propagated to sub-objects (content)
 
-- 
2.43.0


From 2bbe4604def433e20a6369d27652ee4831b355ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 49/93] fix: initial candidates told as copies (after a dump)
 replace the one in the population

---
 nevergrad/optimization/differentialevolution.py | 1 +
 nevergrad/optimization/es.py                    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 068cae6..611ebf1 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -270,6 +270,7 @@ class _DE(base.Optimizer):
             self.population[uid] = candidate
         elif mo_adapt and (
             parent._losses is None
+            or parent.uid == candidate.uid  # initial candidate
             or np.average(candidate.losses < parent.losses, weights=self.objective_weights) > self._rng.rand()
         ):
             # multiobjective case, with adaptation,
diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index cbb7d79..6311dd7 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -72,6 +72,8 @@ class _EvolutionStrategy(base.Optimizer):
                 self._population[candidate.uid] = candidate
                 self._uid_queue.tell(candidate.uid)
             else:
+                if candidate.uid in self._population:
+                    self._population[candidate.uid] = candidate  # copy of the initial candidate, with its loss
                 self._waiting.append(candidate)
             if len(self._waiting) >= self._config.offsprings:
                 self._select()
-- 
2.43.0


From 9744da794d545df7d53d3d12690aff1728352797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 50/93] fix: unsatisfiable constraint layers do not recurse
 endlessly

---
 nevergrad/ops/constraints.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/ops/constraints.py b/nevergrad/ops/constraints.py
index fe79c27..a8ad1bc 100644
--- a/nevergrad/ops/constraints.py
+++ b/nevergrad/ops/constraints.py
@@ -39,6 +39,7 @@ class Constraint(core.Operator):
         self._opt_cls = optimizers.registry[optimizer]
         self._budget = budget
         self._cache: tp.Any = None
+        self._updating = False
 
     def _layered_del_value(self) -> None:
         self._cache = None  # clear cache!
@@ -82,6 +83,8 @@ class Constraint(core.Operator):
         # Override only apply_constraint if you can, tampering with this method is tricky
         if self._cache is not None:
             return self._cache
+        if self._updating:  # value read during the update of the root parameter, see below
+            return super()._layered_get_value()
         parameter = self.parameter()
         satisfied = not np.any(self.function(*parameter.args, **parameter.kwargs))
         if satisfied:
@@ -89,6 +92,10 @@ class Constraint(core.Operator):
             return self._cache
         root: core.Parameter = self._layers[0]  # type: ignore
         recom = self.apply_constraint(parameter)
-        root.set_standardized_data(np.zeros(root.dimension), reference=recom)
+        self._updating = True
+        try:
+            root.set_standardized_data(np.zeros(root.dimension), reference=recom)
+        finally:
+            self._updating = False
         self._cache = recom.value
         return self._cache
-- 
2.43.0


From 9a78a7831e02c9474e989cf1701e93982ffd2685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 51/93] fix: NSGA2 accepts candidates rejected by cheap
 constraints

---
 nevergrad/optimization/recastlib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index bfd2bdd..59e347c 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -676,7 +676,8 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         """
         Multi-Objective override for this function.
         """
-        return candidate.losses
+        # candidates which are rejected because of the constraints have an infinite loss, but no losses
+        return loss if candidate._losses is None else candidate.losses
 
 
 class Pymoo(base.ConfiguredOptimizer):
@@ -797,7 +798,8 @@ class _PymooBatchMinimizeBase(recaster.BatchRecastOptimizer):
         """
         Multi-Objective override for this function.
         """
-        return candidate.losses
+        # candidates which are rejected because of the constraints have an infinite loss, but no losses
+        return loss if candidate._losses is None else candidate.losses
 
 
 class PymooBatch(base.ConfiguredOptimizer):
-- 
2.43.0


From e7a9b5ee1461487f132aebe19327a35c83544912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 52/93] fix: OnePlusOne keeps the tabu length specified on the
 parametrization

---
 nevergrad/optimization/optimizerlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index e09f937..ed4a320 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -128,7 +128,8 @@ class _OnePlusOne(base.Optimizer):
         forced_discretization: bool = False,
     ) -> None:
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
-        self.parametrization.tabu_length = tabu_length
+        if tabu_length > 0:  # keep the one specified on the parametrization otherwise
+            self.parametrization.tabu_length = tabu_length
         if forced_discretization:
             self.parametrization.set_integer_casting()  # type: ignore
         self.antismooth = antismooth
@@ -254,7 +255,7 @@ class _OnePlusOne(base.Optimizer):
                 self._doerr_counters += [0.0]
                 i += j
                 j += 2
-        assert self.parametrization.tabu_length == tabu_length
+        assert tabu_length in (0, self.parametrization.tabu_length)
 
     def _internal_ask_candidate(self) -> p.Parameter:
         # pylint: disable=too-many-return-statements, too-many-branches
-- 
2.43.0


From 47dcd6e2e5db8e767f3547fe8dea9a1e8081a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 53/93] fix: candidates projected on the constraints can be
 told to TBPSA, split and rescaled optimizers

---
 nevergrad/optimization/base.py         | 4 +++-
 nevergrad/optimization/optimizerlib.py | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 3ebc19d..20d6b14 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -885,4 +885,6 @@ def _constraint_solver(parameter: p.Parameter, budget: int) -> p.Parameter:
         if penalty <= 0:  # constraints are satisfied
             break
     data = opt.recommend().get_standardized_data(reference=parameter_without_constraint)
-    return parameter.spawn_child().set_standardized_data(data)
+    child = parameter.spawn_child().set_standardized_data(data)
+    child._meta.update(parameter._meta)  # some optimizers need their own information about the points they asked
+    return child
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index ed4a320..c9a3324 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1655,6 +1655,9 @@ class _Rescaled(base.Optimizer):
         return sent_candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid not in self._subcandidates:  # projected on the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         self._optimizer.tell(self._subcandidates.pop(candidate.uid), loss)
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
@@ -1795,6 +1798,9 @@ class SplitOptimizer(base.Optimizer):
         return cand
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid not in self._subcandidates:  # projected on the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         candidates = self._subcandidates.pop(candidate.uid)
         for cand, opt in zip(candidates, self.optims):
             opt.tell(cand, loss)
-- 
2.43.0


From 2f3b82138baddea8e673d6a7a6bcdfdc36902e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 54/93] fix: violating points are penalised and not recommended
 when the budget is unknown

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 20d6b14..f0863c8 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -398,7 +398,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(no_tabu=True) and self.budget is not None:
+        if not candidate.satisfies_constraints(no_tabu=True):
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From b0d4d06c3323dcd73c45257e38bea9d4880e946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 55/93] fix: constraints of sub-parameters are penalised and
 projected (endless recursion, failure out of budget)

---
 nevergrad/optimization/base.py    |  8 ++++----
 nevergrad/optimization/utils.py   |  4 +---
 nevergrad/parametrization/core.py | 13 +++++++++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index f0863c8..1a22d70 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -523,8 +523,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                     try:  # Sometimes we have a limited budget so that
                         candidate = self._internal_ask_candidate()
                     except AssertionError as e:
-                        assert (
-                            self.parametrization._constraint_checkers
+                        assert not self.parametrization.can_skip_constraints(
+                            self.parametrization
                         ), f"Error: {e}"  # This should not happen without constraint issues.
                         candidate = self.parametrization.spawn_child()
                 if candidate.satisfies_constraints(self.parametrization):
@@ -868,14 +868,14 @@ class ConfiguredOptimizer:
 def _constraint_solver(parameter: p.Parameter, budget: int) -> p.Parameter:
     """Runs a suboptimization to solve the parameter constraints"""
     parameter_without_constraint = parameter.copy()
-    parameter_without_constraint._constraint_checkers.clear()
+    parameter_without_constraint._clear_constraints()
     parameter_without_constraint.tabu_length = 0
     opt = registry["OnePlusOne"](parameter_without_constraint, num_workers=1, budget=budget)
     for _ in range(budget):
         cand = opt.ask()
         # Our objective function is minimum for the point the closest to
         # the original candidate under the constraints.
-        penalty = sum(utils._float_penalty(func(cand.value)) for func in parameter._constraint_checkers)
+        penalty = parameter._constraint_penalty(cand)
 
         # TODO: this may not scale well with dimension
         distance = np.tanh(np.sum(cand.get_standardized_data(reference=parameter) ** 2))
diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 7b7e6da..f247973 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -7,7 +7,6 @@ import math
 import operator
 import numpy as np
 from nevergrad.parametrization import parameter as p
-from nevergrad.parametrization.utils import float_penalty as _float_penalty
 import nevergrad.common.typing as tp
 from nevergrad.common.tools import OrderedSet
 
@@ -396,5 +395,4 @@ class ConstraintManager:
         """Computes the penalty associated with a Parameter, for constraint management"""
         budget = 1 if budget is None else budget
         coeff = self.penalty_factor * (self.penalty_exponent ** (num_ask / np.sqrt(budget)))
-        val = parameter.value
-        return coeff * sum(_float_penalty(func(val)) for func in parameter._constraint_checkers)  # type: ignore
+        return coeff * parameter._constraint_penalty(parameter)  # type: ignore
diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index bfe9d9a..504ae98 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -325,6 +325,19 @@ class Parameter(Layered):
             return True
         return all(utils.float_penalty(func(val)) <= 0 for func in self._constraint_checkers)
 
+    def _constraint_penalty(self: P, candidate: P) -> float:
+        """Sum of the violations of the constraints (including those of the sub-objects) by the candidate"""
+        inside = sum(self._subobjects.apply("_constraint_penalty", candidate).values())
+        if not self._constraint_checkers:
+            return float(inside)
+        val = candidate.value
+        return float(inside + sum(utils.float_penalty(func(val)) for func in self._constraint_checkers))
+
+    def _clear_constraints(self) -> None:
+        """Removes all the constraints, including those of the sub-objects"""
+        self._subobjects.apply("_clear_constraints")
+        self._constraint_checkers = []
+
     def specify_tabu_length(
         self,
         tabu_length: int,
-- 
2.43.0


From ca0db480f3bd48ffa3b49854cd74189b9f2859f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 56/93] fix: fast discrete mutations in small dimension and
 coordinatewise mutations use the requested arity

---
 nevergrad/optimization/mutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/mutations.py b/nevergrad/optimization/mutations.py
index 7134a15..33bf7f2 100644
--- a/nevergrad/optimization/mutations.py
+++ b/nevergrad/optimization/mutations.py
@@ -34,7 +34,7 @@ class Mutator:
         """Mutation as in the fast 1+1-ES, Doerr et al. The exponent is 1.5."""
         dimension = len(parent)
         if dimension < 5:
-            return self.discrete_mutation(parent)
+            return self.discrete_mutation(parent, arity=arity)
         return self.doubledoerr_discrete_mutation(parent, max_ratio=0.5, arity=arity)
 
     def doubledoerr_discrete_mutation(
@@ -116,7 +116,7 @@ class Mutator:
             discrete_data + self.random_state.choice([-1.0, 1.0], size=dimension) * velocity,
             discrete_data,
         )
-        return discretization.inverse_threshold_discretization(discrete_data)
+        return discretization.inverse_threshold_discretization(discrete_data, arity=arity)
 
     def discrete_mutation(self, parent: tp.ArrayLike, arity: int = 2) -> tp.ArrayLike:
         """This is the most classical discrete 1+1 mutation of the evolution literature."""
-- 
2.43.0


From c70653f0ea014974fb21330356c398fdbc0d0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 57/93] fix: populations (DE, PSO, ES, CMA) take the penalty of
 violating points into account

---
 nevergrad/optimization/base.py         | 8 +++++++-
 nevergrad/optimization/optimizerlib.py | 6 +++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 1a22d70..8b07c75 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -33,8 +33,10 @@ _PruningCallable = tp.Callable[[utils.Archive[utils.MultiValue]], utils.Archive[
 def _loss(param: p.Parameter) -> float:
     """Returns the loss if available, or inf otherwise.
     Used to simplify handling of losses
+    (including the penalty, for candidates which violate constraints)
     """
-    return param.loss if param.loss is not None else float("inf")
+    loss = param._meta.get("penalized_loss", param.loss)
+    return loss if loss is not None else float("inf")  # type: ignore
 
 
 def load(cls: tp.Type[X], filepath: tp.PathLike) -> X:
@@ -419,6 +421,10 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             )
             loss += violation
 
+        candidate._meta.pop("penalized_loss", None)
+        if no_update:
+            candidate._meta["penalized_loss"] = loss  # populations must not prefer violating candidates
+
         if (
             isinstance(loss, float)
             and (self.num_objectives == 1 or self.num_objectives > 1 and not self._no_hypervolume)
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index c9a3324..eaf34f6 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -812,7 +812,7 @@ class _CMA(base.Optimizer):
         self._to_be_told.append(candidate)
         if len(self._to_be_told) >= self.es.popsize:
             listx = [c._meta[self._CACHE_KEY] for c in self._to_be_told]
-            listy = [c.loss for c in self._to_be_told]
+            listy = [base._loss(c) for c in self._to_be_told]
             args = (listy, listx) if self._fcmaes else (listx, listy)
             try:
                 self.es.tell(*args)
@@ -1451,9 +1451,9 @@ class _PSO(base.Optimizer):
             return
         self._uid_queue.tell(uid)
         self.population[uid] = candidate
-        if self._best.loss is None or loss < self._best.loss:
+        if loss < base._loss(self._best):
             self._best = candidate
-        if loss <= candidate.heritage.get("best_parent", candidate).loss:
+        if loss <= base._loss(candidate.heritage.get("best_parent", candidate)):
             candidate.heritage["best_parent"] = candidate
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
-- 
2.43.0


From ef6e2536c591af213d4d95e8982d994f3c1fe097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 58/93] fix: DE accepts its documented recommendation "mean"

---
 nevergrad/optimization/differentialevolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 611ebf1..776c555 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -166,7 +166,8 @@ class _DE(base.Optimizer):
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
         if self._config.recommendation != "noisy":
-            return self.current_bests[self._config.recommendation].parameter
+            name = "average" if self._config.recommendation == "mean" else self._config.recommendation
+            return self.current_bests[name].parameter
         med_fitness = np.median([p.loss for p in self.population.values() if p.loss is not None])
         good_guys = [p for p in self.population.values() if p.loss is not None and p.loss < med_fitness]
         if not good_guys:
-- 
2.43.0


From bcf8553ae699f39e2ec4f8bae872c89372a08402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 59/93] fix: portfolios and chains do not refuse the losses of
 points they asked

---
 nevergrad/optimization/optimizerlib.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index eaf34f6..17b672f 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2112,7 +2112,7 @@ class Portfolio(base.Optimizer):
                 accepted += 1
             except errors.TellNotAskedNotSupportedError:
                 pass
-        if not accepted:
+        if not accepted and candidate.uid not in self._asked:  # losses of asked points are never refused
             raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self) -> None:
@@ -3441,6 +3441,8 @@ class _Chain(base.Optimizer):
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         # Let us inform all concerned algorithms
         sum_budget = 0.0
+        accepted = candidate.uid in self._asked  # losses of asked points are never refused
+        refused = False
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
@@ -3452,7 +3454,13 @@ class _Chain(base.Optimizer):
                     and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
                 )
             ):
-                opt.tell(candidate, loss)
+                try:
+                    opt.tell(candidate, loss)
+                    accepted = True
+                except errors.TellNotAskedNotSupportedError:
+                    refused = True
+        if refused and not accepted:
+            raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self):
         for opt in self.optimizers:
-- 
2.43.0


From f0478e23d316e7e0a81833fc83471ab206b65736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:31 +0000
Subject: [PATCH 60/93] fix: RandomSampler replays its points after
 reinitialize, Rescaler accepts a null extent

---
 nevergrad/optimization/sequences.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/sequences.py b/nevergrad/optimization/sequences.py
index fb0592d..8aee9c4 100644
--- a/nevergrad/optimization/sequences.py
+++ b/nevergrad/optimization/sequences.py
@@ -124,9 +124,15 @@ class RandomSampler(Sampler):
         if scrambling:
             raise ValueError("RandomSampler does not support scrambling")
         super().__init__(dimension, budget, random_state=random_state)
+        self.seed = self.random_state.randint(2**32, dtype=np.uint32)
+        self.randg = np.random.RandomState(self.seed)
+
+    def reinitialize(self) -> None:
+        super().reinitialize()
+        self.randg = np.random.RandomState(self.seed)
 
     def _internal_sampler(self) -> tp.ArrayLike:
-        return self.random_state.uniform(0, 1, self.dimension)  # type: ignore
+        return self.randg.uniform(0, 1, self.dimension)  # type: ignore
 
 
 class HaltonPermutationGenerator:
@@ -217,5 +223,7 @@ class Rescaler:
 
     def apply(self, point: tp.ArrayLike) -> np.ndarray:
         point = np.asarray(point)
-        factor = (1 - 2 * self.epsilon) / (self.sample_maxs - self.sample_mins)
-        return self.epsilon + factor * (point - self.sample_mins)  # type: ignore
+        extent = self.sample_maxs - self.sample_mins
+        factor = (1 - 2 * self.epsilon) / np.where(extent > 0, extent, 1.0)
+        # without extent (e.g. only one point) there is nothing to stretch
+        return np.where(extent > 0, self.epsilon + factor * (point - self.sample_mins), point)  # type: ignore
-- 
2.43.0


From 38f15acc0453402734fa6efc050fa0e0ac3a8a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:20 +0000
Subject: [PATCH 61/93] fix: average of the hull best for recommendation

---
 nevergrad/optimization/oneshot.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/oneshot.py b/nevergrad/optimization/oneshot.py
index 0e23444..c507bab 100644
--- a/nevergrad/optimization/oneshot.py
+++ b/nevergrad/optimization/oneshot.py
@@ -5,7 +5,7 @@
 
 import copy
 import numpy as np
-from scipy.spatial import ConvexHull  # pylint: disable=no-name-in-module
+from scipy.spatial import ConvexHull, QhullError  # pylint: disable=no-name-in-module
 import nevergrad.common.typing as tp
 from nevergrad.parametrization import parameter as p
 from nevergrad.parametrization import transforms as trans
@@ -26,7 +26,12 @@ def convex_limit(struct_points: np.ndarray) -> int:
         return len(struct_points) // 2
     for i in range(0, min(2 * d + 2, len(struct_points)), 2):
         points += [struct_points[i]]
-    hull = ConvexHull(points[: (d + 1)], incremental=True)
+    if d < 2:
+        return d  # two points always define a segment
+    try:
+        hull = ConvexHull(points[: (d + 1)], incremental=True)
+    except QhullError:  # degenerate set of points
+        return 1
     num_points = len(hull.vertices)
     k = len(points) - 1
     for i in range(num_points, len(points)):
@@ -76,8 +81,13 @@ def avg_of_k_best(archive: utils.Archive[utils.MultiValue], method: str = "dimfo
         k = max(1, int(len(archive) // (1.1**dimension)))
     elif method == "hull":
         k = convex_limit(
-            np.concatenate(
-                sorted(items, key=lambda indiv: archive[indiv[0]].get_estimation("pessimistic")), axis=0
+            np.array(
+                [
+                    indiv[0]
+                    for indiv in sorted(
+                        items, key=lambda indiv: archive[indiv[0]].get_estimation("pessimistic")
+                    )
+                ]
             )
         )
         k = min(len(archive) // 4, min(k, int(len(archive) / (1.1**dimension))))
-- 
2.43.0


From ac817f8a3a960688f82a0052c55ae0e127408e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:24 +0000
Subject: [PATCH 62/93] fix: errors and outputs of recast optimizers depend on
 the speed of their thread, late tells of PymooBatch dummies

---
 nevergrad/optimization/recaster.py  | 10 ++++++----
 nevergrad/optimization/recastlib.py |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index 1372ee1..cf459bc 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -271,7 +271,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         """
         if self._messaging_thread is None:
             self._messaging_thread = MessagingThread(self.get_optimization_function())
-        alive = self._messaging_thread.is_alive()
+        # the thread always posts a last message: until it is received, there is one to wait for
+        alive = not self._messaging_thread.ended
         if alive:
             point = self._messaging_thread.messages_ask.get()
             if point is None or isinstance(point, Exception):
@@ -295,7 +296,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         (none asked point cannot be "tell")
         """
         assert self._messaging_thread is not None, 'Start by using "ask" method, instead of "tell" method'
-        if not self._messaging_thread.is_alive():  # optimizer is done
+        if self._messaging_thread.ended:  # optimizer is done
             self._check_error()
             return
         if self._enable_pickling:
@@ -376,7 +377,8 @@ class BatchRecastOptimizer(RecastOptimizer):
             raise TooManyAskError(
                 "You can't get a new batch until the old one has been fully told on. See docstring for more info."
             )
-        alive = self._messaging_thread.is_alive()
+        # the thread always posts a last message: until it is received, there is one to wait for
+        alive = not self._messaging_thread.ended
         # wait for a message
         if alive:
             points = self._messaging_thread.messages_ask.get()
@@ -409,7 +411,7 @@ class BatchRecastOptimizer(RecastOptimizer):
         (none asked point cannot be "tell")
         """
         assert self._messaging_thread is not None, 'Start by using "ask" method, instead of "tell" method'
-        if not self._messaging_thread.is_alive():  # optimizer is done
+        if self._messaging_thread.ended:  # optimizer is done
             self._check_error()
             return
         candidate_index = self.indices.pop(candidate.uid)
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 59e347c..bbdfaf5 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -791,6 +791,8 @@ class _PymooBatchMinimizeBase(recaster.BatchRecastOptimizer):
         """
         if self._messaging_thread is None:
             return  # dummy tell i.e. not activating pymoo until num_objectives is set
+        if candidate.uid not in self.indices:
+            return  # late tell of a dummy ask
         super()._internal_tell_candidate(candidate, loss)
 
     def _post_loss(self, candidate: p.Parameter, loss: float) -> tp.Loss:
-- 
2.43.0


From cbd4e07abb9f9aceff5bcfcb94d27203f302db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 63/93] fix: CommandFunction deadlocks when the command writes
 a lot on its error output

---
 nevergrad/parametrization/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 27afa71..d7d9a92 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -170,10 +170,11 @@ class CommandFunction:
         if self.verbose:
             print(f"The following command is sent: {full_command}")
         outlines: tp.List[str] = []
-        with subprocess.Popen(
+        # stderr goes through a file: a pipe would block the command when full, since only stdout is read
+        with tempfile.TemporaryFile() as errfile, subprocess.Popen(
             full_command,
             stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=errfile,
             shell=False,
             cwd=self.cwd,
             env=self.env,
@@ -190,7 +191,9 @@ class CommandFunction:
                 process.kill()
                 process.wait()
                 raise FailedJobError("Job got killed for an unknown reason.")
-            stderr = process.communicate()[1]  # we already got stdout
+            process.communicate()  # we already got stdout
+            errfile.seek(0)
+            stderr = errfile.read()
             stdout = "\n".join(outlines)
             retcode = process.poll()
             if stderr and (retcode or self.verbose):
-- 
2.43.0


From 347f698e9b71ef1c95b1250f0d67486fd2a40693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 64/93] fix: reading twice the result of a mocked timed job
 raises

---
 nevergrad/benchmark/execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 70a827a..efeca7d 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,8 +57,9 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        self._is_read = True
-        self._executor.notify_read(self)
+        if not self._is_read:  # a result can be read several times
+            self._is_read = True
+            self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From c1f3458f0dce2c554c9856f246e1deae1c9997c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:36 +0000
Subject: [PATCH 65/93] fix: seeded experiment plans fail on Python 3.11+ since
 random.seed refuses numpy integers

---
 nevergrad/benchmark/xpbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 99d07e3..2566f71 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -264,7 +264,7 @@ class Experiment:
             np.random.seed(
                 self.seed
             )  # seeds both functions and parametrization (for which random state init is lazy)
-            random.seed(self.seed)
+            random.seed(int(self.seed))  # numpy integers are not supported
             torch.manual_seed(self.seed)
         pfunc = self.function.copy()
         # check constraints are propagated
-- 
2.43.0


From be9abe8d21a7d7fc54d8de81499f746b57b2603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 66/93] fix: names shared by several files of a folder function
 are not refused

---
 nevergrad/parametrization/instantiate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 8848cb0..431f60e 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -190,6 +190,7 @@ class FolderInstantiator:
                         raise RuntimeError(
                             f"Found {fp} placeholders in another file (names must be unique): {fnames & names}"
                         )
+                    names |= fnames
                     self.file_functions.append(file_func)
         assert self.file_functions, "Found no file with placeholders"
         self.file_functions = sorted(self.file_functions, key=operator.attrgetter("filepath"))
-- 
2.43.0


From 43374c0ba6e4382ef61f98ad6896fd4008dc2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 67/93] fix: instantiating a file drops its trailing newline
 and form feeds

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 431f60e..d276d46 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -128,7 +128,7 @@ class FileTextFunction:
                 "Please refer to the README, PR #73 or issue #45 for more information"
             )
         if LINETOKEN in text:
-            lines = text.splitlines()
+            lines = text.split("\n")  # keeps the end of the file as it is
             ext = filepath.suffix.lower()
             lines = [(l if LINETOKEN not in l else uncomment_line(l, ext)) for l in lines]
             text = "\n".join(lines)
-- 
2.43.0


From 4150b2ac7dd9c727da2b7eca5ab1f4f4818b021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 68/93] fix: clean copy of folders given as '.' or '~'

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index d276d46..0b27921 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -177,7 +177,7 @@ class FolderInstantiator:
         self.folder = Path(folder).expanduser().absolute()
         assert self.folder.exists(), f"{folder} does not seem to exist"
         if clean_copy:
-            self._clean_copy = utils.TemporaryDirectoryCopy(str(folder))
+            self._clean_copy = utils.TemporaryDirectoryCopy(self.folder)
             self.folder = self._clean_copy.copyname
         self.file_functions: tp.List[FileTextFunction] = []
         names: tp.Set[str] = set()
-- 
2.43.0


From ee787ac7767b70a4a23ada8c6740b4af05d90be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:46 +0000
Subject: [PATCH 69/93] fix: upper-case suffixes and special comment characters
 of registered file types

---
 nevergrad/parametrization/instantiate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 0b27921..00ee692 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -96,7 +96,7 @@ def uncomment_line(line: str, extension: str) -> str:
             f"Unknown file type: {extension}\nDid you register it using {FolderFunction.register_file_type.__name__}?"
         )
     pattern = r"^(?P<indent> *)"
-    pattern += r"(?P<linetoken>" + COMMENT_CHARS[extension] + r" *" + LINETOKEN + r" *)"
+    pattern += r"(?P<linetoken>" + re.escape(COMMENT_CHARS[extension]) + r" *" + LINETOKEN + r" *)"
     pattern += r"(?P<command>.*)"
     lineseg = re.search(pattern, line)
     if lineseg is not None:
@@ -145,7 +145,7 @@ class FileTextFunction:
 
     def __call__(self, **kwargs: tp.Any) -> str:
         testing.assert_set_equal(kwargs, self.parameters, err_msg="Wrong input parameters.")
-        return Placeholder.sub(self._text, self.filepath.suffix, replacers=kwargs)
+        return Placeholder.sub(self._text, self.filepath.suffix.lower(), replacers=kwargs)
 
     def __repr__(self) -> str:
         names = sorted(self.parameters)
@@ -282,7 +282,7 @@ class FolderFunction:
         the characters that indicate a comment."""
         if not suffix.startswith("."):
             suffix = f".{suffix}"
-        COMMENT_CHARS[suffix] = comment_chars
+        COMMENT_CHARS[suffix.lower()] = comment_chars  # files are looked up by lower case suffix
 
     @property
     def placeholders(self) -> tp.List[Placeholder]:
-- 
2.43.0


From b1ac78d24a2f69fa1d055c3eaee4279d5c163e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:22 +0000
Subject: [PATCH 70/93] fix: multiobjective experiments with constraints fail
 since they have no single recommendation

---
 nevergrad/benchmark/xpbase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 2566f71..62491cf 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -232,12 +232,13 @@ class Experiment:
         # ExperimentFunction can directly override this evaluation function if need be
         # (pareto_front returns only the recommendation in singleobjective)
         self.result["num_objectives"] = opt.num_objectives
-        self.result["loss"] = pfunc.evaluation_function(*opt.pareto_front())
+        recommendations = opt.pareto_front()
+        self.result["loss"] = pfunc.evaluation_function(*recommendations)
         if (
             self.constraint_violation
-            and np.max([f(opt.recommend().value) for f in self.constraint_violation]) > 0  # type: ignore
+            and np.max([f(r.value) for f in self.constraint_violation for r in recommendations]) > 0  # type: ignore
             or len(self.function.parametrization._constraint_checkers) > 0
-            and not opt.recommend().satisfies_constraints(pfunc.parametrization)
+            and not all(r.satisfies_constraints(pfunc.parametrization) for r in recommendations)
         ):
             # print(f"{len(self.constraint_violation)} ==> cv violation!!!!")
             # print(f"{len(self.function.parametrization._constraint_checkers)} ==> cv checker!!!!")
-- 
2.43.0


From 5726a76ebe3642cd2ebd1b0477423045cfacfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:17 +0000
Subject: [PATCH 71/93] fix: appending results to a file alters its earlier
 rows (last digits, NA-like names, integers)

---
 nevergrad/benchmark/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/core.py b/nevergrad/benchmark/core.py
index cc1181b..0da11d2 100644
--- a/nevergrad/benchmark/core.py
+++ b/nevergrad/benchmark/core.py
@@ -40,10 +40,12 @@ def save_or_append_to_csv(df: pd.DataFrame, path: Path) -> None:
         print("Appending to existing file")
         try:
             predf = pd.read_csv(
-                str(path), on_bad_lines="warn"
+                str(path), on_bad_lines="warn", dtype=str, keep_default_na=False  # keep earlier rows as they are
             )  # , error_bad_lines=False)#, error_bad_lines=False)
         except:  # for some versions of Panda.
-            predf = pd.read_csv(str(path))  # , error_bad_lines=False)#, error_bad_lines=False)
+            predf = pd.read_csv(
+                str(path), dtype=str, keep_default_na=False
+            )  # , error_bad_lines=False)#, error_bad_lines=False)
         df = pd.concat([predf, df], sort=False)
     df.to_csv(path, index=False)
 
-- 
2.43.0


From 0c6074f2447038a9c7d8a07ea7415d1270d815b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:17 +0000
Subject: [PATCH 72/93] fix: results sharing indices are duplicated or dropped
 with the errors

---
 nevergrad/benchmark/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index f984926..47c7dc6 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -134,7 +134,7 @@ def _make_sorted_winrates_df(victories: pd.DataFrame) -> pd.DataFrame:
 
 
 def remove_errors(df: pd.DataFrame) -> utils.Selector:
-    df = utils.Selector(df)
+    df = utils.Selector(df.reset_index(drop=True))  # concatenated results share indices
     if "error" not in df.columns:  # backward compatibility
         return df  # type: ignore
     # errors with no recommendation
-- 
2.43.0


From eb15ecc87df2207590807ed5608846accf0019ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:18 +0000
Subject: [PATCH 73/93] fix: infinite losses are ties when comparing optimizers

---
 nevergrad/benchmark/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index 47c7dc6..e8d4075 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -76,9 +76,9 @@ def _make_winners_df(df: pd.DataFrame, all_optimizers: tp.List[str]) -> utils.Se
     grouped = df.loc[:, ["optimizer_name", "loss"]].groupby(["optimizer_name"]).mean()
     df_optimizers = list(grouped.index)
     values = np.array(grouped)
-    diffs = values - values.T
     # loss_ij = 1 means opt_i beats opt_j once (beating means getting a lower loss/regret)
-    winners.loc[df_optimizers, df_optimizers] = (diffs < 0) + 0.5 * (diffs == 0)
+    # (no difference here since infinite losses are ties)
+    winners.loc[df_optimizers, df_optimizers] = (values < values.T) + 0.5 * (values == values.T)
     return winners
 
 
-- 
2.43.0


From ed824c94407bffb44e134022be445c7f8d2f0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:57 +0000
Subject: [PATCH 74/93] fix: copies of functions share their list of
 constraints with the original

---
 nevergrad/functions/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..bc1f2c9 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -196,7 +196,7 @@ class ExperimentFunction:
                 "ExperimentFunction.__new__ and copy to better understand what happens"
             )
         # propagate other useful information # TODO a bit hacky
-        output.parametrization._constraint_checkers = self.parametrization._constraint_checkers
+        output.parametrization._constraint_checkers = list(self.parametrization._constraint_checkers)
         output.multiobjective_upper_bounds = (
             self.multiobjective_upper_bounds
         )  # TODO not sure why this is needed
-- 
2.43.0


From 7fdc2a4c567959416d2f926815b1154214709389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:57 +0000
Subject: [PATCH 75/93] fix: symmetrised functions flip all coordinates about
 the middle of the first one

---
 nevergrad/functions/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index bc1f2c9..661216a 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -336,7 +336,8 @@ class ArrayExperimentFunction(ExperimentFunction):
             for i in range(self.dimension):  # pylint: disable=consider-using-enumerate
                 if symmetry % 2 == 1:
                     if self.parametrization.bounds[0] is not None and self.parametrization.bounds[1] is not None:  # type: ignore
-                        middle = (self.parametrization.bounds[0][0] + self.parametrization.bounds[1][0]) / 2.0  # type: ignore
+                        lower, upper = (np.broadcast_to(b, (self.dimension,)) for b in self.parametrization.bounds)  # type: ignore
+                        middle = (lower[i] + upper[i]) / 2.0
                     else:
                         middle = 0.0
                     self.threshold_coefficients[i] = 2.0 * middle  # Otherwise we keep 0.
-- 
2.43.0


From 945d67343c50f7ec2c83c4ce298d30d117533506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:57 +0000
Subject: [PATCH 76/93] fix: copies of special evaluation experiments share
 their parametrization with the original

---
 nevergrad/functions/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/functions/helpers.py b/nevergrad/functions/helpers.py
index 1a8ff00..330f867 100644
--- a/nevergrad/functions/helpers.py
+++ b/nevergrad/functions/helpers.py
@@ -48,6 +48,8 @@ class SpecialEvaluationExperiment(base.ExperimentFunction):
             "_evaluation",
         ]:
             setattr(instance, name, getattr(self, name).copy())
+        if instance.parametrization is self._experiment.parametrization:  # must not be shared
+            instance.parametrization = instance._experiment.parametrization
         return instance
 
     def compute_pseudotime(  # pylint: disable=unused-argument
-- 
2.43.0


From 53801a3282e8b7ae2c307e51a0eb84d0fb1b722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:57 +0000
Subject: [PATCH 77/93] fix: the subset of a pareto front selected for a
 special evaluation is not reproducible

---
 nevergrad/functions/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/functions/helpers.py b/nevergrad/functions/helpers.py
index 330f867..fdde6f3 100644
--- a/nevergrad/functions/helpers.py
+++ b/nevergrad/functions/helpers.py
@@ -60,7 +60,9 @@ class SpecialEvaluationExperiment(base.ExperimentFunction):
     def evaluation_function(self, *recommendations: p.Parameter) -> float:
         if self._pareto_size is not None and len(recommendations) > self._pareto_size:
             # select a subset
-            hypervolume = mobj.HypervolumePareto(upper_bounds=self.multiobjective_upper_bounds)
+            hypervolume = mobj.HypervolumePareto(
+                upper_bounds=self.multiobjective_upper_bounds, seed=self.parametrization.random_state
+            )
             hypervolume.extend(recommendations)
             recommendations = tuple(
                 hypervolume.pareto_front(
-- 
2.43.0


From 7ec09dbd75cfd95d190c2a26da2494029cf29e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:44 +0000
Subject: [PATCH 78/93] fix: copies of copies of special evaluation experiments
 share the parametrization of the original

---
 nevergrad/functions/helpers.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nevergrad/functions/helpers.py b/nevergrad/functions/helpers.py
index fdde6f3..f90ec30 100644
--- a/nevergrad/functions/helpers.py
+++ b/nevergrad/functions/helpers.py
@@ -40,17 +40,15 @@ class SpecialEvaluationExperiment(base.ExperimentFunction):
     def _delegate_to_experiment(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Loss:
         return self._experiment(*args, **kwargs)
 
-    def copy(self) -> "SpecialEvaluationExperiment":
+    def _internal_copy(self) -> "SpecialEvaluationExperiment":
         """Creates with new experiments and evaluations"""
-        instance = super().copy()
-        for name in [
-            "_experiment",
-            "_evaluation",
-        ]:
-            setattr(instance, name, getattr(self, name).copy())
-        if instance.parametrization is self._experiment.parametrization:  # must not be shared
-            instance.parametrization = instance._experiment.parametrization
-        return instance
+        return SpecialEvaluationExperiment(
+            self._experiment.copy(),
+            self._evaluation.copy(),
+            pareto_size=self._pareto_size,
+            pareto_subset=self._pareto_subset,
+            pareto_subset_tentatives=self._pareto_subset_tentatives,
+        )
 
     def compute_pseudotime(  # pylint: disable=unused-argument
         self, input_parameter: tp.Any, loss: tp.Loss
-- 
2.43.0


From 2f18ddba16940355e3fa468511f414d0b7cbff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:53 +0000
Subject: [PATCH 79/93] fix: optimization printer and logger ignore their
 interval of tells, the printer fails with several objectives

---
 nevergrad/optimization/callbacks.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..d3e866b 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,13 +37,17 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
+            if optimizer.num_objectives > 1:
+                losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
+                print(f"After {optimizer.num_tell}, the minimum losses in the pareto front are {losses}")
+                return
             x = optimizer.provide_recommendation()
             print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
 
@@ -78,11 +82,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From 991a406523c86f73ae305b6c471f51be49c3a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:03 +0000
Subject: [PATCH 80/93] fix: the order of the parameters logger is ignored

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index d3e866b..03b8533 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -163,7 +163,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From 2b65d9fb1ce8edc72d34b99278dfebc6b50e8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:03 +0000
Subject: [PATCH 81/93] fix: records containing numpy values in choices or
 nested containers are not logged

---
 nevergrad/optimization/callbacks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 03b8533..66d52c4 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -102,6 +102,13 @@ class OptimizationLogger:
                 )
 
 
+def _to_builtin(val: tp.Any) -> tp.Any:
+    """Converts (possibly nested) numpy values for json"""
+    if isinstance(val, (np.ndarray, np.generic)):
+        return val.tolist()
+    raise TypeError(f"Object of type {type(val).__name__} is not JSON serializable")
+
+
 class ParametersLogger:
     """Logs parameter and run information throughout into a file during
     optimization.
@@ -177,7 +184,7 @@ class ParametersLogger:
                 )
         try:  # avoid bugging as much as possible
             with self._filepath.open("a") as f:
-                f.write(json.dumps(data) + "\n")
+                f.write(json.dumps(data, default=_to_builtin) + "\n")
         except Exception as e:  # pylint: disable=broad-except
             warnings.warn(f"Failing to json data: {e}")
 
-- 
2.43.0


From 1be9c577141b152d74a3b8e2441043677c2a820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:04 +0000
Subject: [PATCH 82/93] fix: flattening a log with ragged or heterogeneous
 lists fails or turns values to strings

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 66d52c4..83d7777 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -212,7 +212,7 @@ class ParametersLogger:
             list_keys = {key for key, val in element.items() if isinstance(val, list)}
             flat_data.append({key: val for key, val in element.items() if key not in list_keys})
             for key in list_keys:
-                for k, (indices, value) in enumerate(np.ndenumerate(element[key])):
+                for k, (indices, value) in enumerate(np.ndenumerate(np.array(element[key], dtype=object))):
                     if k >= max_list_elements:
                         break
                     flat_data[-1][key + "#" + "_".join(str(i) for i in indices)] = value
-- 
2.43.0


From 647419b5a994d3a3c70abee9971050fad6b32e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 83/93] Revert "fix: infinite losses are ties when comparing
 optimizers"

This reverts commit eb15ecc87df2207590807ed5608846accf0019ea.
---
 nevergrad/benchmark/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index e8d4075..47c7dc6 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -76,9 +76,9 @@ def _make_winners_df(df: pd.DataFrame, all_optimizers: tp.List[str]) -> utils.Se
     grouped = df.loc[:, ["optimizer_name", "loss"]].groupby(["optimizer_name"]).mean()
     df_optimizers = list(grouped.index)
     values = np.array(grouped)
+    diffs = values - values.T
     # loss_ij = 1 means opt_i beats opt_j once (beating means getting a lower loss/regret)
-    # (no difference here since infinite losses are ties)
-    winners.loc[df_optimizers, df_optimizers] = (values < values.T) + 0.5 * (values == values.T)
+    winners.loc[df_optimizers, df_optimizers] = (diffs < 0) + 0.5 * (diffs == 0)
     return winners
 
 
-- 
2.43.0


From 73e8c88bffb56dd17668f019d3542ddea9cc8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 84/93] Revert "fix: results sharing indices are duplicated or
 dropped with the errors"

This reverts commit 0c6074f2447038a9c7d8a07ea7415d1270d815b7.
---
 nevergrad/benchmark/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index 47c7dc6..f984926 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -134,7 +134,7 @@ def _make_sorted_winrates_df(victories: pd.DataFrame) -> pd.DataFrame:
 
 
 def remove_errors(df: pd.DataFrame) -> utils.Selector:
-    df = utils.Selector(df.reset_index(drop=True))  # concatenated results share indices
+    df = utils.Selector(df)
     if "error" not in df.columns:  # backward compatibility
         return df  # type: ignore
     # errors with no recommendation
-- 
2.43.0


From 374b78523417f4ac19237c96a5a348be6dabec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 85/93] Revert "fix: appending results to a file alters its
 earlier rows (last digits, NA-like names, integers)"

This reverts commit 5726a76ebe3642cd2ebd1b0477423045cfacfdc9.
---
 nevergrad/benchmark/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nevergrad/benchmark/core.py b/nevergrad/benchmark/core.py
index 0da11d2..cc1181b 100644
--- a/nevergrad/benchmark/core.py
+++ b/nevergrad/benchmark/core.py
@@ -40,12 +40,10 @@ def save_or_append_to_csv(df: pd.DataFrame, path: Path) -> None:
         print("Appending to existing file")
         try:
             predf = pd.read_csv(
-                str(path), on_bad_lines="warn", dtype=str, keep_default_na=False  # keep earlier rows as they are
+                str(path), on_bad_lines="warn"
             )  # , error_bad_lines=False)#, error_bad_lines=False)
         except:  # for some versions of Panda.
-            predf = pd.read_csv(
-                str(path), dtype=str, keep_default_na=False
-            )  # , error_bad_lines=False)#, error_bad_lines=False)
+            predf = pd.read_csv(str(path))  # , error_bad_lines=False)#, error_bad_lines=False)
         df = pd.concat([predf, df], sort=False)
     df.to_csv(path, index=False)
 
-- 
2.43.0


From a61810e920b810a3056e86f32be46d7c6f6273a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 86/93] Revert "fix: multiobjective experiments with
 constraints fail since they have no single recommendation"

This reverts commit b1ac78d24a2f69fa1d055c3eaee4279d5c163e27.
---
 nevergrad/benchmark/xpbase.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 62491cf..2566f71 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -232,13 +232,12 @@ class Experiment:
         # ExperimentFunction can directly override this evaluation function if need be
         # (pareto_front returns only the recommendation in singleobjective)
         self.result["num_objectives"] = opt.num_objectives
-        recommendations = opt.pareto_front()
-        self.result["loss"] = pfunc.evaluation_function(*recommendations)
+        self.result["loss"] = pfunc.evaluation_function(*opt.pareto_front())
         if (
             self.constraint_violation
-            and np.max([f(r.value) for f in self.constraint_violation for r in recommendations]) > 0  # type: ignore
+            and np.max([f(opt.recommend().value) for f in self.constraint_violation]) > 0  # type: ignore
             or len(self.function.parametrization._constraint_checkers) > 0
-            and not all(r.satisfies_constraints(pfunc.parametrization) for r in recommendations)
+            and not opt.recommend().satisfies_constraints(pfunc.parametrization)
         ):
             # print(f"{len(self.constraint_violation)} ==> cv violation!!!!")
             # print(f"{len(self.function.parametrization._constraint_checkers)} ==> cv checker!!!!")
-- 
2.43.0


From 9fe8b92e611586751b120ef8f48ee176ba9e2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 87/93] Revert "fix: seeded experiment plans fail on Python
 3.11+ since random.seed refuses numpy integers"

This reverts commit c1f3458f0dce2c554c9856f246e1deae1c9997c5.
---
 nevergrad/benchmark/xpbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 2566f71..99d07e3 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -264,7 +264,7 @@ class Experiment:
             np.random.seed(
                 self.seed
             )  # seeds both functions and parametrization (for which random state init is lazy)
-            random.seed(int(self.seed))  # numpy integers are not supported
+            random.seed(self.seed)
             torch.manual_seed(self.seed)
         pfunc = self.function.copy()
         # check constraints are propagated
-- 
2.43.0


From 9ecb3e6228d20a3a8fbdb479aae59682c45bde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:04 +0000
Subject: [PATCH 88/93] Revert "fix: reading twice the result of a mocked timed
 job raises"

This reverts commit 347f698e9b71ef1c95b1250f0d67486fd2a40693.
---
 nevergrad/benchmark/execution.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index efeca7d..70a827a 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,9 +57,8 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        if not self._is_read:  # a result can be read several times
-            self._is_read = True
-            self._executor.notify_read(self)
+        self._is_read = True
+        self._executor.notify_read(self)
         return self._output
 
     def __repr__(self) -> str:
-- 
2.43.0


From 7b56d21f5cedbb8bbec1da784d4205d889144548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:44 +0000
Subject: [PATCH 89/93] fix: registry keeps the information of removed keys

---
 nevergrad/common/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/common/decorators.py b/nevergrad/common/decorators.py
index 777e844..98befee 100644
--- a/nevergrad/common/decorators.py
+++ b/nevergrad/common/decorators.py
@@ -64,6 +64,7 @@ class Registry(tp.MutableMapping[str, X]):
 
     def __delitem__(self, key: str) -> None:
         del self.data[key]
+        self._information.pop(key, None)
 
     def __iter__(self) -> tp.Iterator[str]:
         return iter(self.data)
-- 
2.43.0


From 140883bb275776aa8a590187965d12f416a4cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:44 +0000
Subject: [PATCH 90/93] fix: discarding a missing key of an ordered set raises

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index f83286e..e2621da 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -147,7 +147,7 @@ class OrderedSet(tp.MutableSet[X]):
         return key
 
     def discard(self, key: X) -> None:
-        del self._data[key]
+        self._data.pop(key, None)
 
     def __contains__(self, key: tp.Any) -> bool:
         return key in self._data
-- 
2.43.0


From d57658a389d7a67ae37a6c4318dd8fd84e16f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:44 +0000
Subject: [PATCH 91/93] fix: set_env fails on exit if a variable was removed
 inside

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index e2621da..6b91562 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -215,7 +215,7 @@ def set_env(**environ: tp.Any) -> tp.Generator[None, None, None]:
         yield
     finally:
         for k, val in old_environ.items():
-            os.environ.pop(k)
+            os.environ.pop(k, None)
             if val is not None:
                 os.environ[k] = val
 
-- 
2.43.0


From d86ef13a3d2724ef3e7076cc64a9c8dd2c92937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:44 +0000
Subject: [PATCH 92/93] fix: no-improvement stopping fails with several
 objectives and never fires for unevaluated recommendations

---
 nevergrad/optimization/callbacks.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 83d7777..e8e333d 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -378,20 +378,30 @@ class _DurationCriterion:
 class _LossImprovementToleranceCriterion:
     def __init__(self, tolerance_window: int) -> None:
         self._tolerance_window: int = tolerance_window
-        self._best_value: tp.Optional[np.ndarray] = None
+        self._best_value: tp.Any = None
         self._tolerance_count: int = 0
 
     def __call__(self, optimizer: base.Optimizer) -> bool:
-        best_param = optimizer.provide_recommendation()
-        if best_param is None or (best_param.loss is None and best_param._losses is None):
+        last_value = self._current_value(optimizer)
+        if last_value is None:
             return False
-        best_last_losses = best_param.losses
         if self._best_value is None:
-            self._best_value = best_last_losses
+            self._best_value = last_value
             return False
-        if self._best_value <= best_last_losses:
+        if last_value <= self._best_value if isinstance(last_value, set) else self._best_value <= last_value:
             self._tolerance_count += 1
         else:
             self._tolerance_count = 0
-            self._best_value = best_last_losses
+            self._best_value = last_value
         return self._tolerance_count > self._tolerance_window
+
+    @staticmethod
+    def _current_value(optimizer: base.Optimizer) -> tp.Any:
+        """Losses of the recommendation, or set of the losses of the pareto front with several objectives"""
+        if optimizer.num_objectives > 1:  # no recommendation: improving means adding a point to the front
+            return {tuple(c.losses) for c in optimizer.pareto_front()}
+        best_param = optimizer.provide_recommendation()
+        if best_param is not None and not (best_param.loss is None and best_param._losses is None):
+            return best_param.losses
+        # some optimizers recommend points which were not evaluated
+        return np.array([optimizer.current_bests["minimum"].mean]) if optimizer.num_tell else None
-- 
2.43.0


From 40ff505a51874eeb7c7c49ad3f46e514ce5e001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:26 +0000
Subject: [PATCH 93/93] fix: optimizers restored by replay receive the losses
 which were told, including penalties

---
 nevergrad/optimization/recaster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index cf459bc..c425e27 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -255,7 +255,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
     ) -> None:
         super().__init__(parametrization=parametrization, budget=budget, num_workers=num_workers)
         self._enable_pickling = False
-        self.replay_archive_tell: tp.List[p.Parameter] = []
+        self.replay_archive_tell: tp.List[tp.Tuple[p.Parameter, float]] = []
 
     def enable_pickling(self):
         """Make the optimizer store its history of tells, so
@@ -300,7 +300,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             self._check_error()
             return
         if self._enable_pickling:
-            self.replay_archive_tell.append(candidate)
+            self.replay_archive_tell.append((candidate, loss))  # the loss can be penalized
         self._messaging_thread.messages_tell.put(self._post_loss(candidate, loss))
 
     def __getstate__(self):
@@ -320,7 +320,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
         # We temporarily unset _enable_pickling so that the replays do not
         # get archived again.
         self._enable_pickling = False
-        for i, candidate in enumerate(self.replay_archive_tell):
+        for i, (candidate, loss) in enumerate(self.replay_archive_tell):
             new_candidate = self._internal_ask_candidate()
             norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))
             # Check that the replay wants the same value as we had the first time.
@@ -328,7 +328,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             # check the reproducibility of your optimizer.
             if norm > 0.00001:
                 raise RuntimeError(f"Mismatch in replay at index {i} of {len(self.replay_archive_tell)}.")
-            self._internal_tell_candidate(candidate, candidate.loss)
+            self._internal_tell_candidate(candidate, loss)
 
         if self.num_ask > self.num_tell:
             self._internal_ask_candidate()
-- 
2.43.0

