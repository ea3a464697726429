From 977713b88715c148b5a5cb3577c3636aab9c268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 01/75] fix: label the axes of a marginalised Categorical in
 the order of the tensor

---
 veroku/factors/categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..fce2e93 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -274,7 +274,9 @@ class Categorical(Factor):
         :rtype: Categorical
         """
 
-        vars_to_keep = super().get_marginal_vars(vrs, keep)
+        marginal_vars = super().get_marginal_vars(vrs, keep)
+        # the axes of the result tensor are in the order of this factor's variables
+        vars_to_keep = [v for v in self.var_names if v in marginal_vars]
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
-- 
2.43.0


From 1a272d6503db498b0dce43c35f03c4be4c93576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 02/75] fix: keep variables with cardinality one when
 marginalising a Categorical

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index fce2e93..0ff679b 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -281,7 +281,7 @@ class Categorical(Factor):
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
         vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
+        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor, axis=tuple(indices_to_sum_out)),
                            variables_assignment_names=vars_to_keep_assignment_values)
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 3f5c7e66279e2790dc678a92b6ff41052042120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 03/75] fix: align variables before applying the 0/0 rule in
 Categorical.cancel

---
 veroku/factors/categorical.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0ff679b..0111e9c 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -358,17 +358,12 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
-
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def log_cancel(log_a, log_b):
+            zero_divided_by_zero = (log_a == -np.inf) & (log_b == -np.inf)
+            return log_a - np.where(zero_divided_by_zero, 0.0, log_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, log_cancel
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From 70f71205113098cbbfddce84ed0b2ff9ef87a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 04/75] fix: let Categorical divide and cancel accept a factor
 with variables of its own

---
 veroku/factors/categorical.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0111e9c..251e357 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -358,6 +358,10 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
+        if not isinstance(factor, Categorical):
+            raise TypeError(f"factor must be of Categorical type but has type {type(factor)}")
+        self._assert_consistent_cardinalities(factor)
+
         def log_cancel(log_a, log_b):
             zero_divided_by_zero = (log_a == -np.inf) & (log_b == -np.inf)
             return log_a - np.where(zero_divided_by_zero, 0.0, log_b)
@@ -367,7 +371,9 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = copy.deepcopy(self.vars_assignments_names_dict)
+        vars_assignments_names_union_dict.update(factor.vars_assignments_names_dict)
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
@@ -389,7 +395,9 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = copy.deepcopy(self.vars_assignments_names_dict)
+        vars_assignments_names_union_dict.update(factor.vars_assignments_names_dict)
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
-- 
2.43.0


From de1710f804f374c15cdee3e1db0439cffdc7eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 05/75] fix: SparseCategorical.potential for any variable order
 and for default-valued assignments

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..3f1ecd8 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -830,9 +830,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        var_names_to_vrs_indices = [list(vrs).index(v) for v in self.var_names]
+        var_names_order_assignments = tuple([assignment[i] for i in var_names_to_vrs_indices])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From e562dd41ff4f74a5ee0d2cf8d4547ec50a8e9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 06/75] fix: SparseCategorical.reduce when no entry matches the
 observed values

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 3f1ecd8..935028a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,7 +556,7 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        lp_table = nested_table.get(tuple(values), dict())
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
-- 
2.43.0


From 8d1854aa40707b0e1f679bf807fac9d2f26cefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 07/75] fix: keep the default log probability in
 SparseCategorical reorder and reduce

---
 veroku/factors/sparse_categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 935028a..4d83e08 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -563,7 +563,8 @@ class SparseCategorical(Factor):
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards,
+                                             default_log_prob=self.default_log_prob)
 
         return resulting_factor
 
@@ -921,6 +922,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From c7e232516fdb626b8cf68929f5539cea36d0dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 08/75] fix: count default-valued assignments in
 SparseCategorical marginalize, normalize and weight

---
 veroku/factors/sparse_categorical.py | 38 ++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 4d83e08..28d5bf7 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -361,6 +361,22 @@ def _any_scope_binary_operation(ntd_a,
     return resulting_factor_table
 
 
+def _log_sum(log_probs, num_default, default_log_prob):
+    """
+    Get the log of the sum of the given probabilities and a number of default probabilities.
+
+    :param iterable log_probs: The (non-default) log probabilities.
+    :param int num_default: The number of missing assignments, which have the default log probability.
+    :param float default_log_prob: The default log probability.
+    :return: The log of the sum.
+    :rtype: float
+    """
+    log_probs = list(log_probs)
+    if num_default > 0:
+        log_probs.append(default_log_prob + np.log(num_default))
+    return special.logsumexp(log_probs)
+
+
 def _fast_copy_probs_table(table):
     """
     Copy a dictionary representation of a probability table faster than the standard deepcopy.
@@ -522,9 +538,10 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
+        num_summed = int(np.prod([self.var_cards[v] for v in vars_to_sum_out]))
         result_table = dict()
         for l1_assign, log_probs_table in nested_table.items():
-            prob = special.logsumexp(list(log_probs_table.values()))
+            prob = _log_sum(log_probs_table.values(), num_summed - len(log_probs_table), self.default_log_prob)
             result_table[l1_assign] = prob
 
         result_var_cards = copy.deepcopy(self.var_cards)
@@ -534,7 +551,8 @@ class SparseCategorical(Factor):
         cardinalities = [self.var_cards[v] for v in vars_to_keep]
 
         resulting_factor = SparseCategorical(
-            var_names=vars_to_keep, log_probs_table=result_table, cardinalities=cardinalities
+            var_names=vars_to_keep, log_probs_table=result_table, cardinalities=cardinalities,
+            default_log_prob=self.default_log_prob + np.log(num_summed)
         )
 
         return resulting_factor
@@ -733,11 +751,22 @@ class SparseCategorical(Factor):
         """
 
         factor_copy = self.copy()
-        logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
+        logz = self._log_weight()
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
+        factor_copy.default_log_prob -= logz
         return factor_copy
 
+    def _log_weight(self):
+        """
+        Get the log of the sum of all the probabilities, including those of the missing assignments.
+
+        :return: The log weight.
+        :rtype: float
+        """
+        num_default = int(np.prod(self.cardinalities)) - len(self.log_probs_table)
+        return _log_sum(self.log_probs_table.values(), num_default, self.default_log_prob)
+
     def _is_dense(self):
         """
         Check if all factor assignments have non-default values.
@@ -849,8 +878,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
-        weight_ = np.exp(log_weight)
+        weight_ = np.exp(self._log_weight())
         return weight_
 
     def _to_df(self):
-- 
2.43.0


From 5f17055a8f1fa28e43c8d73ee134d735ab9402b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 09/75] fix: SparseCategorical multiply, cancel and argmax with
 a non-zero default probability

---
 veroku/factors/sparse_categorical.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 28d5bf7..b1fb901 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -597,6 +597,15 @@ class SparseCategorical(Factor):
                 error_msg = f"Error: inconsistent variable cardinalities: {factor.var_cards}, {self.var_cards}"
                 assert self.var_cards[var] == factor.var_cards[var], error_msg
 
+    def _zero_default_rules(self):
+        """
+        Get the default rules for operations in which a zero probability guarantees a zero probability result.
+
+        :return: The default rules ('any' is only valid if the default probability is zero).
+        :rtype: str
+        """
+        return "any" if self.default_log_prob == -np.inf else "none"
+
     def multiply(self, factor):
         """
         Multiply this factor with another factor and return the result.
@@ -608,7 +617,7 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        return self._apply_binary_operator(factor, operator.add, default_rules=self._zero_default_rules())
 
     def cancel(self, factor):
         """
@@ -625,7 +634,7 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        return self._apply_binary_operator(factor, special_divide, default_rules=self._zero_default_rules())
 
     def divide(self, factor):
         """
@@ -645,7 +654,10 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        log_probs_table = self.log_probs_table
+        if self.default_log_prob != -np.inf or not log_probs_table:
+            log_probs_table = _make_dense(self).log_probs_table
+        return max(log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
-- 
2.43.0


From d4d2e1f8cc615da4fb36f7471400648f93669558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/75] fix: keep a usable default in the result of
 SparseCategorical.divide

---
 veroku/factors/sparse_categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index b1fb901..39e3ea1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -645,7 +645,10 @@ class SparseCategorical(Factor):
         :return: The factor quotient.
         :rtype: SparseCategorical
         """
-        return self._apply_binary_operator(factor, operator.sub, default_rules="none")
+        quotient = self._apply_binary_operator(factor, operator.sub, default_rules="none")
+        if self.default_log_prob == -np.inf:
+            quotient.default_log_prob = self.default_log_prob
+        return quotient
 
     def argmax(self):
         """
-- 
2.43.0


From 64b1b380084530e85ae62b0d15ccebc374c6238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 11/75] fix: count default-valued assignments in
 SparseCategorical KL-divergences

---
 veroku/factors/sparse_categorical.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 39e3ea1..5c814d7 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -38,6 +38,22 @@ def _make_dense(factor):
     return factor_copy
 
 
+def _with_zero_default(factor):
+    """
+    Get a version of a factor in which missing assignments have zero probability.
+
+    :param factor: The factor to convert.
+    :type factor: SparseCategorical
+    :return: The factor itself, if its default probability is zero already, and otherwise a dense version of it.
+    :rtype: SparseCategorical
+    """
+    if factor.default_log_prob == -np.inf:
+        return factor
+    dense_factor = _make_dense(factor)
+    dense_factor.default_log_prob = -np.inf
+    return dense_factor
+
+
 def _make_dense_default_probs_dict(cardinalities, default_value):
     """
     Make a dictionary representing a categorical probability table that contains all assignments, as specified by the
@@ -840,7 +856,7 @@ class SparseCategorical(Factor):
         if normalize_factor:
             log_q = factor.normalize()
 
-        kld = self._raw_kld(log_p, log_q)
+        kld = self._raw_kld(_with_zero_default(log_p), _with_zero_default(log_q))
 
         if kld < 0.0:
             if np.isclose(kld, 0.0, atol=1e-4):
@@ -860,7 +876,7 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         # make uniform copy
-        uniform_factor = self.copy()
+        uniform_factor = _with_zero_default(self.copy())
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
-- 
2.43.0


From fcaf994234cd8cccc102983f3201555db5be71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 12/75] fix: align variable orders in Gaussian.kl_divergence

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..2b321ab 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -739,9 +739,10 @@ class Gaussian(Factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-        factor_ = factor
+        factor_ = factor.copy()
         if normalize_factor:
             factor_ = factor.normalize()
+        factor_._reorder_parameters(normalized_self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From 1cb143ee788a0ecb386460decc74ca970a2066f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 13/75] fix: Gaussian.equals must not reorder the factor it is
 given

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2b321ab..2da5334 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
-- 
2.43.0


From 791557a9f6471dcca322096746ad49fabd3405b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 14/75] fix: Gaussian.reduce when all variables are observed

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2da5334..319514a 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -659,8 +659,8 @@ class Gaussian(Factor):
         """
         prec = self.get_prec()
         h_vec = self.get_h()
-        prec_reduced = 0
-        h_reduced = 0
+        prec_reduced = np.zeros([0, 0])
+        h_reduced = np.zeros([0, 1])
         if unobserved_indices:
             prec_xx = prec[np.ix_(unobserved_indices, unobserved_indices)]
             prec_reduced = prec_xx.copy()
-- 
2.43.0


From 80d596d5b43063acb4ccdcc3089cbd4b888f936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 15/75] fix: linear Gaussian factors with a transform that is
 not square

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 319514a..ba166f3 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,7 +123,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-- 
2.43.0


From b1a079ac266dd96243013e539ad9458dba3ee4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 16/75] fix: keep the normalising constant in linear Gaussian
 CPD templates

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index ba166f3..c964f26 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -127,7 +127,7 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From ae7d94ed731af2aa5c00dbb0c2b298824ee77ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 17/75] fix: a Gaussian template with a proper distribution
 does not make vacuous factors

---
 veroku/factors/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index c964f26..1e6f778 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1082,5 +1082,7 @@ class GaussianTemplate(FactorTemplate):
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
         # TODO: remove this and find better solution
         g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
+        # templates for conditional distributions have singular precision matrices
+        is_singular = np.linalg.matrix_rank(self.prec) < self.prec.shape[0]
+        g_val._is_vacuous = bool(is_singular or not _factor_utils.is_pos_def(self.prec))
         return g_val
-- 
2.43.0


From 3bad5b0dc40320f38bc265bd07342551f42c08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 18/75] fix: compare Gaussian mixtures by pairing off their
 components

---
 veroku/factors/_factor_utils.py               | 27 +++++++++++++++++++
 .../factors/experimental/gaussian_mixture.py  | 13 ++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index 7b04800..e56feb7 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -381,3 +381,30 @@ def space_assignments_and_probs(assignment, value, spacings):
     spaced_content_stings = [c_str + space for c_str, space in zip(content_stings, spacings)]
     spaced_content_sting = ''.join(spaced_content_stings)
     return spaced_content_sting
+
+
+def have_one_to_one_match(items_a, items_b, is_match):
+    """
+    Check if the items of two lists can be paired off completely, such that the items in each pair match.
+
+    :param list items_a: The first list of items.
+    :param list items_b: The second list of items.
+    :param callable is_match: A function that takes an item from each list and returns whether they match.
+    :return: The result of the check.
+    :rtype: bool
+    """
+    if len(items_a) != len(items_b):
+        return False
+    candidates = [[j for j, item_b in enumerate(items_b) if is_match(item_a, item_b)] for item_a in items_a]
+    partner_of_b = {}
+
+    def find_partner(i, tried):
+        for j in candidates[i]:
+            if j not in tried:
+                tried.add(j)
+                if j not in partner_of_b or find_partner(partner_of_b[j], tried):
+                    partner_of_b[j] = i
+                    return True
+        return False
+
+    return all(find_partner(i, set()) for i in range(len(items_a)))
diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..dd861cf 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,14 +104,11 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
-        for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
-                return False
-        return True
+        return _factor_utils.have_one_to_one_match(
+            self.components,
+            factor.components,
+            lambda comp_a, comp_b: comp_a.equals(comp_b, rtol=rtol, atol=atol),
+        )
 
     def get_component(self, index):
         """
-- 
2.43.0


From 910755955858d64e39ab6055e2d86331a2b22acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 19/75] fix: results of Gaussian mixture operations keep the
 chosen cancel method

---
 veroku/factors/experimental/gaussian_mixture.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index dd861cf..b9ac006 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -131,7 +131,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
@@ -152,7 +152,7 @@ class GaussianMixture(Factor):
                     new_components.append(comp_ai.multiply(comp_bi))
         else:
             raise TypeError("unsupported factor type.")
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def divide(self, factor):
         """
@@ -181,7 +181,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.divide(single_gaussian))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def reduce(self, vrs, values):
         """
@@ -197,7 +197,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.reduce(vrs, values))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -213,7 +213,7 @@ class GaussianMixture(Factor):
         new_components = []
         for comp in self.components:
             new_components.append(comp.marginalize(vrs, keep))
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     def distance_from_vacuous(self):
         """
@@ -334,7 +334,7 @@ class GaussianMixture(Factor):
             comp_copy = comp.copy()
             comp_copy._add_log_weight(-1.0 * unnormalized_log_weight)
             new_components.append(comp_copy)
-        return GaussianMixture(new_components)
+        return GaussianMixture(new_components, cancel_method=self.cancel_method)
 
     @property
     def is_vacuous(self):
-- 
2.43.0


From dbe2a6a6aa5318eba58b548e2fe10fdd7099eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 20/75] fix: make the / operator divide factors

---
 veroku/factors/_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..43f298c 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -203,7 +203,7 @@ class Factor:
         """
         return self.multiply(other)
 
-    def __div__(self, other):
+    def __truediv__(self, other):
         """
         Divide this factor with another factor.
 
-- 
2.43.0


From a331f51848b2d41c52540cbc3c1c6d533164f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 21/75] fix: extend the scope of a FactorizedFactor when
 multiplying in a factor with new variables

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..85c2861 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -77,7 +77,7 @@ class FactorizedFactor(Factor):
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
-            factorised_factor_copy.factors.append(factor)
+            return FactorizedFactor(factorised_factor_copy.factors + [factor])
         return factorised_factor_copy
 
     def divide(self, factor):
-- 
2.43.0


From 2f1d209392b7cc40278fe9e91822341c47f91f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 22/75] fix: merge all dependent factors of a FactorizedFactor
 before normalising or marginalising

---
 .../factors/experimental/factorised_factor.py | 47 +++++++------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 85c2861..5be66d3 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -158,8 +158,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -230,18 +229,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        merged_factor = self.copy()
+        merged_factor._merge_factors_with_shared_scope(set(self.var_names))
+        return merged_factor
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
@@ -253,24 +243,19 @@ class FactorizedFactor(Factor):
         :param vrs_set: The common scope variables to be considered to determine 'dependent' factors.
         :type vrs_set: str list
         """
-        observed_factor_vars_list = []
-
-        for factor in self.factors:
-            observed_factor_vars = set(factor.var_names).intersection(vrs_set)
-            observed_factor_vars_list.append(observed_factor_vars)
-
         merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
+        for factor in self.factors:
+            shared_vars = set(factor.var_names).intersection(vrs_set)
+            dependent_factors = [f for f in merged_factors if shared_vars.intersection(f.var_names)]
+            if not dependent_factors:
+                merged_factors.append(factor)
+                continue
+            merged_factor = dependent_factors[0]
+            for dependent_factor in dependent_factors[1:]:
+                merged_factor = merged_factor.multiply(dependent_factor)
+                merged_factors = [f for f in merged_factors if f is not dependent_factor]
+            index = [f is dependent_factors[0] for f in merged_factors].index(True)
+            merged_factors[index] = merged_factor.multiply(factor)
         self.factors = merged_factors
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 92503e288664039815f0a8feb58d5efbaf41f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 23/75] fix: FactorizedFactor.reduce when some or all of its
 factors are fully observed

---
 .../factors/experimental/factorised_factor.py  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 5be66d3..2d9ab93 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -271,11 +271,11 @@ class FactorizedFactor(Factor):
         """
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
-        additional_log_weight = 0.0
+        fully_observed_factors = []
         for factor in self.factors:
             factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
+            if set(factor_var_names) <= set(vrs):
+                fully_observed_factors.append(factor)
             elif len(set(vrs).intersection(set(factor_var_names))) > 0:
                 subset_vrs, subset_values = get_subset_evidence(
                     all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
@@ -284,6 +284,18 @@ class FactorizedFactor(Factor):
                 reduced_factors.append(reduced_factor)
             else:
                 reduced_factors.append(factor.copy())
+        if not reduced_factors:  # only the constants of the observed factors remain
+            factor = fully_observed_factors.pop(0)
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
+            )
+            reduced_factors.append(factor.reduce(subset_vrs, subset_values))
+        additional_log_weight = 0.0
+        for factor in fully_observed_factors:
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
+            )
+            additional_log_weight += factor.log_potential(x_val=subset_values, vrs=subset_vrs)
         adjusted_weight_factor_0 = reduced_factors[0]
         adjusted_weight_factor_0._add_log_weight(additional_log_weight)
         reduced_factors[0] = adjusted_weight_factor_0
-- 
2.43.0


From a0eec3080426c7f10f26ee95fcc86e9b7ae13258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 24/75] fix: compare FactorizedFactors by pairing off their
 factors or else by their joint distributions

---
 .../factors/experimental/factorised_factor.py | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 2d9ab93..f131a7c 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -3,7 +3,7 @@ A module for factorised factor functionality
 """
 
 from veroku.factors._factor import Factor
-from veroku.factors._factor_utils import get_subset_evidence
+from veroku.factors._factor_utils import get_subset_evidence, have_one_to_one_match
 from veroku._constants import DEFAULT_FACTOR_RTOL, DEFAULT_FACTOR_ATOL
 
 # TODO: This class in very much a work in progress. This needs to be completed. We must think especially carefully about
@@ -344,21 +344,19 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
         if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
+            return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
+
+        def is_match(factor_a, factor_b):
+            same_scope = set(factor_a.var_names) == set(factor_b.var_names)
+            return same_scope and factor_a.equals(factor_b, rtol=rtol, atol=atol)
+
+        if have_one_to_one_match(self.factors, factor.factors, is_match):
             return True
-        return False
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def show(self):
         """
-- 
2.43.0


From d5813d6b2f6fc04c6ef5941380711a5eb3fbbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 25/75] fix: KL-divergence between FactorizedFactors and
 FactorizedFactor.show

---
 veroku/factors/experimental/factorised_factor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index f131a7c..4a20b1e 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -140,7 +140,7 @@ class FactorizedFactor(Factor):
         :rtype: float
         """
         # TODO: Make this more efficient.
-        return self.joint_distribution.kl_divergence(factor)
+        return self.joint_distribution.kl_divergence(factor.joint_distribution)
 
     @property
     def num_factors(self):
@@ -362,6 +362,6 @@ class FactorizedFactor(Factor):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From 59915650c7f01f5425faac86f649800a0f505db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 26/75] fix: posterior joint of a cluster graph before every
 message path has been used

---
 veroku/cluster_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..d452baf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -477,7 +477,11 @@ class ClusterGraph:
         """
         The factors of the messages passed in the last iteration of message passing.
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From f13dfdc8df5352a1bc11212db790bdca361debe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 27/75] fix: NonLinearGaussian with only observed conditioning
 variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..1bca58b 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -254,6 +254,8 @@ class NonLinearGaussian(Factor):
 
         # If we are still here, there we can calculate the transformation.
         conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        unobserved_conditioning_vars = []
+        conditioning_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
@@ -265,16 +267,18 @@ class NonLinearGaussian(Factor):
                 )
 
             conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            unobserved_conditioning_vars = conditioning_factor.var_names
+            conditioning_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
             tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
             extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_observed_vars + unobserved_conditioning_vars
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = unobserved_conditioning_vars
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +293,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = unobserved_conditioning_vars + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_log_weight
         self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                             mean=joint_mean,
                                             log_weight=joint_log_weight,
-- 
2.43.0


From ce6d0efe1e7acc206e19ce267619c65bde028e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 28/75] fix: divide a NonLinearGaussian by a conditional factor
 when none has been multiplied in

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 1bca58b..6412abd 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -383,6 +383,8 @@ class NonLinearGaussian(Factor):
             raise ValueError("factor must be Gaussian.")
 
         if set(factor.var_names) <= set(self_copy.conditional_vars):
+            if self_copy.conditional_update_factor is None:
+                self_copy.conditional_update_factor = Gaussian.make_vacuous(factor.var_names)
             self_copy.conditional_update_factor = self_copy.conditional_update_factor.divide(factor)
         elif set(factor.var_names) <= set(self_copy.conditioning_vars):
             if self_copy.conditioning_factor is None:
-- 
2.43.0


From f5fa21e80cff9e8c780e0ea32b3f7e3be4283417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 29/75] fix: multiply a NonLinearGaussianMixture by a Gaussian

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 6412abd..faf9b99 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -556,7 +556,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 123c44a6a770426c0cef0d70888a9e5d2b6765c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 30/75] fix: NonLinearGaussianMixture results keep the split
 setting

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index faf9b99..661488c 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -536,7 +536,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -570,7 +570,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -590,7 +590,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -604,7 +604,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
-- 
2.43.0


From c2e18ce9f1e910591d1c148a79162c67bcb6ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 31/75] fix: marginal of a NonLinearGaussianMixture is a
 GaussianMixture

---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 661488c..252ae44 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -613,12 +613,12 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
-        new_nlgs = []
+        marginals = []
         for nlg in self.nlgs:
-            new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+            marginals.append(nlg.marginalize(vrs, keep))
+        return GaussianMixture(marginals)
 
     def sample(self, num_samples):
         """
-- 
2.43.0


From d3947b4377ce86fe411b6fdbc435846b5e655904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 32/75] fix: divide SparseCategorical factors with disjoint
 scopes

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 5c814d7..4325c40 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -78,7 +78,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = dict.fromkeys(dense_assingments, default_value)
     return dense_default_dict
 
 
-- 
2.43.0


From ce6f025fe924252aebb7a257c580db7d74eb08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 33/75] fix: compare the current joint distribution of a
 nonlinear Gaussian

---
 veroku/factors/experimental/nonlinear_gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 252ae44..507aa3b 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,9 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        if isinstance(factor, NonLinearGaussian):
+            factor = factor.joint_distribution
+        return self.joint_distribution.equals(factor, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From e2bf61fab2282d56bc4c6918dfe1c0bf5fa9ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 34/75] fix: process a single cluster graph with special
 evidence more than once

---
 veroku/cluster_graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d452baf..3b3204e 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -430,9 +430,11 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
-            if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
+            # The evidence may have been observed already, if the graph was processed before.
+            evidence_vrs, evidence_values = get_subset_evidence(
+                self.special_evidence, self._clusters[0].var_names
+            )
+            if len(evidence_vrs) > 0:
                 self._clusters[0]._factor = self._clusters[0]._factor.reduce(
                     vrs=evidence_vrs, values=evidence_values
                 )
-- 
2.43.0


From 9f2ea6ec74ff2a4015bd599dfa5c03cb1c7cbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 35/75] fix: reject table assignments that do not match the
 variables of a Categorical

---
 veroku/factors/categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 251e357..6f99e01 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -96,8 +96,6 @@ class Categorical(Factor):
             ...                    var_names=var_names,
 
         """
-        # TODO: add check that assignment lengths are consistent with var_names
-        # TODO: add check that cardinalities are consistent with assignments
         super().__init__(var_names=var_names)
 
         if cardinalities is None:
@@ -115,10 +113,12 @@ class Categorical(Factor):
         if log_probs_tensor is None:
             probs_tensor = np.zeros(shape=cardinalities)
             for assignment, prob in probs_table.items():
+                error_message = f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
+                if len(assignment) != len(var_names) or any(index < 0 for index in assignment):
+                    raise IndexError(error_message)
                 try:
                     probs_tensor[assignment] = prob
                 except IndexError as index_error:
-                    error_message = f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
                     raise IndexError(error_message) from index_error
             with warnings.catch_warnings():
                 # prevents 'divide by zero encountered in log' from displaying
-- 
2.43.0


From e5dac1f43dafe639538e7ffeea83f8b084e75267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 36/75] fix: reject unknown variables in Categorical
 marginalize and reduce

---
 veroku/factors/categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 6f99e01..1247a2f 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -275,6 +275,8 @@ class Categorical(Factor):
         """
 
         marginal_vars = super().get_marginal_vars(vrs, keep)
+        if not set(marginal_vars) <= set(self.var_names):
+            raise ValueError(f"variables to keep ({marginal_vars}) are not all factor variables ({self.var_names}).")
         # the axes of the result tensor are in the order of this factor's variables
         vars_to_keep = [v for v in self.var_names if v in marginal_vars]
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
@@ -294,6 +296,8 @@ class Categorical(Factor):
         :rtype: Categorical
         """
 
+        if not set(vrs) <= set(self.var_names):
+            raise ValueError(f"observed variables ({vrs}) are not all factor variables ({self.var_names}).")
         vars_unobserved = [v for v in self.var_names if v not in vrs]
         obs_dict = dict(zip(vrs, values))
 
-- 
2.43.0


From 4ba2dcd441e507e5a5ae26c8e939050da5a8abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 37/75] fix: reject table assignments that do not match the
 variables of a SparseCategorical

---
 veroku/factors/sparse_categorical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 4325c40..623fdf4 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -442,8 +442,6 @@ class SparseCategorical(Factor):
             >>>                           var_names=var_names,
             >>>                           cardinalities=cardinalities)
         """
-        # TODO: add check that assignment lengths are consistent with var_names
-        # TODO: add check that cardinalities are consistent with assignments
         super().__init__(var_names=var_names)
         if len(cardinalities) != len(var_names):
             raise ValueError("The cardinalities and var_names lists should be the same length.")
@@ -452,6 +450,11 @@ class SparseCategorical(Factor):
         if log_probs_table is None:
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
+        for assignment in self.log_probs_table:
+            if len(assignment) != len(var_names) or not all(0 <= a < c for a, c in zip(assignment, cardinalities)):
+                raise IndexError(
+                    f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
+                )
         self.var_cards = dict(zip(var_names, cardinalities))
         self.cardinalities = cardinalities
         self.default_log_prob = default_log_prob
-- 
2.43.0


From c1c1ce668f0304205e199a4c34d1a404dbc37456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 38/75] fix: reject a KL-divergence between SparseCategorical
 factors with different scopes

---
 veroku/factors/sparse_categorical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 623fdf4..d9fa04e 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -854,6 +854,11 @@ class SparseCategorical(Factor):
         :return: The Kullback-Leibler divergence
         :rtype: float
         """
+        if set(self.var_names) != set(factor.var_names):
+            raise ValueError(
+                f"the KL-divergence is only defined between factors with the same variables, not {self.var_names} and "
+                f"{factor.var_names}"
+            )
         log_p = self.normalize()
         log_q = factor
         if normalize_factor:
-- 
2.43.0


From b526074376b3a111541cc6e8d96baea2bac9e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 39/75] fix: reject observations of a SparseCategorical with
 missing values

---
 veroku/factors/sparse_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index d9fa04e..5b7b731 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -586,6 +586,8 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
+        if len(vrs) != len(values):
+            raise ValueError(f"expected one value for every observed variable, got {vrs} and {values}.")
         vars_unobserved = [var_name for var_name in self.var_names if var_name not in vrs]
         nested_table, _ = _get_nested_sorted_probs(
             new_variables_order_outer=vrs,
-- 
2.43.0


From ac1431d2d1292f0c3bd881ada50701d582c42f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 40/75] fix: reject evaluation of a Gaussian at a point of the
 wrong dimension

---
 veroku/factors/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 1e6f778..11126bf 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -845,6 +845,7 @@ class Gaussian(Factor):
             assert len(x_val_list) == len(self.var_names)
             x_val = [x_val_list[vrs.index(v)] for v in self.var_names]
         x_vec = _factor_utils.make_column_vector(x_val)
+        assert x_vec.shape == (self.dim, 1), "Error: x_val should have one value for every variable."
         if self.covform:
             log_norm = self.log_weight - 0.5 * np.log(np.linalg.det(2.0 * np.pi * self.cov))
             prec = _factor_utils.inv_matrix(self.cov)
-- 
2.43.0


From 21c4790cacaf2878157c14e124fec1940a4becb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 41/75] fix: keep a factor's variable names independent of the
 given list

---
 veroku/factors/_factor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 43f298c..bda37b5 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,9 +22,8 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
-        if not isinstance(var_names, list):
-            self._var_names = [var_names]
+        # copied, so that changes to the given list do not rename the variables of this factor
+        self._var_names = var_names.copy() if isinstance(var_names, list) else [var_names]
 
         self._dim = len(var_names)
 
-- 
2.43.0


From ebb8a490c8cc390ccee7daba3fc55145dfcb51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 42/75] fix: keep table cardinalities independent of the given
 list

---
 veroku/factors/categorical.py        | 2 +-
 veroku/factors/sparse_categorical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 1247a2f..e20e994 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -130,7 +130,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 5b7b731..9a751d1 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -456,7 +456,7 @@ class SparseCategorical(Factor):
                     f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
                 )
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 02d68cbed74bb101f75e8292ddeca327facbaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 43/75] fix: moment matching of Gaussian mixtures with very
 large or very small weights

---
 .../factors/experimental/gaussian_mixture.py  | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index b9ac006..fea1685 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -438,22 +438,17 @@ class GaussianMixture(Factor):
         :return: The Gaussian approximation.
         :rtype: Gaussian
         """
-        new_mean = np.zeros([self.dim, 1])
-        log_weights = []
-        for comp in self.components:
-            weight_mean = comp.get_weight() * comp.get_mean()
-            new_mean += weight_mean
-            log_weights.append(comp.get_log_weight())
+        log_weights = self._get_log_weights()
         log_sum_weights = special.logsumexp(log_weights)
-        sum_weights = np.exp(log_sum_weights)
-        new_mean = new_mean / sum_weights
+        # The weights relative to the total weight can be calculated even if the weights themselves under- or overflow.
+        relative_weights = np.exp(np.array(log_weights) - log_sum_weights)
+        new_mean = np.zeros([self.dim, 1])
+        for comp, weight in zip(self.components, relative_weights):
+            new_mean += weight * comp.get_mean()
         new_cov = np.zeros([self.dim, self.dim])
-        for comp in self.components:
-            udud_t = comp.get_weight() * (comp.get_mean() - new_mean).dot(
-                (comp.get_mean() - new_mean).transpose()
-            )
-            new_cov += comp.get_weight() * comp.get_cov() + udud_t
-        new_cov = new_cov / sum_weights
+        for comp, weight in zip(self.components, relative_weights):
+            udud_t = (comp.get_mean() - new_mean).dot((comp.get_mean() - new_mean).transpose())
+            new_cov += weight * (comp.get_cov() + udud_t)
         return gauss.Gaussian(
             cov=new_cov, mean=new_mean, log_weight=log_sum_weights, var_names=self.components[0].var_names
         )
-- 
2.43.0


From 3786de300e19432d3bc6278ac570b9fc368016f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 44/75] fix: sampling Gaussian mixtures with very large or very
 small weights

---
 veroku/factors/experimental/gaussian_mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index fea1685..9e4c0bd 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -361,7 +361,8 @@ class GaussianMixture(Factor):
         :return: The samples
         :rtype: float list
         """
-        weights = self._get_weights()
+        log_weights = np.array(self._get_log_weights())
+        weights = np.exp(log_weights - special.logsumexp(log_weights))
         component_choice_samples = np.random.choice(
             range(len(weights)), size=num_samples, p=weights / np.sum(weights)
         )
-- 
2.43.0


From f97cebb881d9ca2aa5fe533e8de9aa4dfe596866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 45/75] fix: start the optimisations for the mode of a mixture
 from one dimensional arrays, as scipy requires

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 9e4c0bd..dfc84d1 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -470,7 +470,7 @@ class GaussianMixture(Factor):
 
         for comp in self.components:
             res = minimize(neg_gmm_log_pot,
-                           x0=comp.get_mean(),
+                           x0=comp.get_mean().ravel(),
                            method=self.optimization_alg,
                            options={"disp": False})
             x_local_max = res.x
@@ -500,7 +500,7 @@ class GaussianMixture(Factor):
             return self.potential(x_vals)
 
         for comp in self.components:
-            res = minimize(gmm_pot, x0=comp.get_mean(), method="BFGS", options={"disp": False})
+            res = minimize(gmm_pot, x0=comp.get_mean().ravel(), method="BFGS", options={"disp": False})
             x_local_min = res.x
             if res.success:
                 success = True
-- 
2.43.0


From 81d4c647ac3f8004b18985c7241f2d882b01f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 46/75] fix: compare the local maxima of a mixture in the log
 domain

---
 veroku/factors/experimental/gaussian_mixture.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index dfc84d1..5ddf77a 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -461,7 +461,7 @@ class GaussianMixture(Factor):
         :return: The argmax assignment.
         :rtype: numpy.ndarray
         """
-        global_maximum_potential = -float("inf")
+        global_maximum_log_potential = -float("inf")
         global_argmax = None
         success = False
 
@@ -476,9 +476,10 @@ class GaussianMixture(Factor):
             x_local_max = res.x
             if res.success:
                 success = True
-                local_maximum_potential = self.potential(x_local_max)
-                if local_maximum_potential > global_maximum_potential:
-                    global_maximum_potential = local_maximum_potential
+                # The potentials themselves could under- or overflow.
+                local_maximum_log_potential = self.log_potential(x_local_max)
+                if local_maximum_log_potential > global_maximum_log_potential:
+                    global_maximum_log_potential = local_maximum_log_potential
                     global_argmax = x_local_max
         if not success:
             raise OptimizationFailedError("Could not find optimum")
-- 
2.43.0


From 13fc06cac3bac64e79bcf80134cf3d196aa1453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 47/75] fix: keep the sign of the constant when matching a
 mixture of negative definite Gaussians

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 5ddf77a..4946752 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -561,7 +561,7 @@ class GaussianMixture(Factor):
         h_vec = prec.dot(mean)
         ut_k_u = ((mean.transpose()).dot(prec)).dot(mean)
         log_det_term = cmath.log(np.linalg.det(2.0 * np.pi * cov))
-        g_val = abs(log_weight - 0.5 * ut_k_u - 0.5 * log_det_term)
+        g_val = log_weight - 0.5 * ut_k_u - 0.5 * log_det_term
         return prec.real, h_vec.real, g_val.real
 
     @staticmethod
-- 
2.43.0


From b22a49fe68bc8de7a6fee4fd4ef7f058fcafc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 48/75] fix: keep the division method of a mixture in its
 approximate quotients

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 4946752..41fad9c 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -641,7 +641,7 @@ class GaussianMixture(Factor):
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-        return GaussianMixture(resulting_gaussian_components)
+        return GaussianMixture(resulting_gaussian_components, cancel_method=gaussian_mixture_a.cancel_method)
 
     @staticmethod
     def _gm_division_m2(gma, gmb):
@@ -682,7 +682,7 @@ class GaussianMixture(Factor):
             gaussian_approx = inverse_gaussian_approx._invert()
             resulting_gaussian_components.append(gaussian_approx)
         print("num pos def = ", count, "/", len(gma.components))
-        resulting_gm = GaussianMixture(resulting_gaussian_components)
+        resulting_gm = GaussianMixture(resulting_gaussian_components, cancel_method=gma.cancel_method)
         return resulting_gm
 
     def _get_limits_for_2d_plot(self):
-- 
2.43.0


From 521084a9c9c1351df19da1a98a766c1ea7771f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 49/75] fix: printing a vacuous Gaussian raised instead of
 showing its canonical form

---
 veroku/factors/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 11126bf..1249c73 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -915,9 +915,9 @@ class Gaussian(Factor):
         np.set_printoptions(precision=4)
         np.core.arrayprint._line_width = 200
         repr_str = "vars = " + str(self.var_names) + "\n"
-        if not self._is_vacuous:
-            repr_str += self._get_can_repr_str()
-        repr_str += self._get_cov_repr_str()
+        repr_str += self._get_can_repr_str()
+        if self.covform or _factor_utils.is_pos_def(self.prec):
+            repr_str += self._get_cov_repr_str()
         return repr_str
 
     def show(self):
-- 
2.43.0


From ddab8718a8e02595ae3ca4dbc85e6dfb609af549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 50/75] fix: splitting a Gaussian into a mixture dropped its
 weight

---
 veroku/factors/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 1249c73..6c413d9 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1031,13 +1031,15 @@ class Gaussian(Factor):
         weights = [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0]
         full_cov = self.get_cov()
         full_mean = self.get_mean()
+        full_log_weight = self.get_log_weight()
 
         covs = [weight * full_cov for weight in weights]
         means = [full_mean - np.sqrt(full_cov), full_mean, full_mean + np.sqrt(full_cov)]
 
         gaussians = []
         for mean, cov, weight in zip(means, covs, weights):
-            gaussian = Gaussian(cov=cov, mean=mean, log_weight=np.log(weight), var_names=self.var_names)
+            log_weight = full_log_weight + np.log(weight)
+            gaussian = Gaussian(cov=cov, mean=mean, log_weight=log_weight, var_names=self.var_names)
             gaussians.append(gaussian)
 
         return gm.GaussianMixture(gaussians)
-- 
2.43.0


From 9a72fd019937ce9e0da4cbad7b8d03f17ec7c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 51/75] fix: a dense table is observed with exactly one value
 per variable

---
 veroku/factors/categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e20e994..d16de03 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -298,6 +298,8 @@ class Categorical(Factor):
 
         if not set(vrs) <= set(self.var_names):
             raise ValueError(f"observed variables ({vrs}) are not all factor variables ({self.var_names}).")
+        if not len(set(vrs)) == len(vrs) == len(values):
+            raise ValueError(f"expected one value for every observed variable, got {vrs} and {values}.")
         vars_unobserved = [v for v in self.var_names if v not in vrs]
         obs_dict = dict(zip(vrs, values))
 
-- 
2.43.0


From abcd1e8b32f58ec718b58c826f239a46f48ec5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 52/75] fix: a dense table is evaluated with exactly one value
 per variable

---
 veroku/factors/categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index d16de03..f854525 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -517,6 +517,7 @@ class Categorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
+        assert len(vrs) == len(assignment) == len(self.var_names), "expected one value for every variable."
         obs_dict = dict(zip(vrs, assignment))
         obs_tensor_indexing = tuple([obs_dict[v] if v in obs_dict else slice(None) for v in self.var_names])
         return np.exp(self.log_probs_tensor[obs_tensor_indexing])
-- 
2.43.0


From 8805ece42b97246d96a1bd19353815149e88d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 53/75] fix: observing a value that a sparse variable does not
 have is an error

---
 veroku/factors/sparse_categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 9a751d1..f8fda05 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -586,8 +586,10 @@ class SparseCategorical(Factor):
         :rtype: SparseCategorical
         """
 
-        if len(vrs) != len(values):
+        if not len(set(vrs)) == len(vrs) == len(values):
             raise ValueError(f"expected one value for every observed variable, got {vrs} and {values}.")
+        if not all(0 <= value < self.var_cards[var] for var, value in zip(vrs, values)):
+            raise IndexError(f"values ({values}) of the observed variables ({vrs}) are out of range.")
         vars_unobserved = [var_name for var_name in self.var_names if var_name not in vrs]
         nested_table, _ = _get_nested_sorted_probs(
             new_variables_order_outer=vrs,
-- 
2.43.0


From 416b7f0a137d288a76a80b9a10623c5c50f4b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 54/75] fix: evaluating a sparse table outside its
 cardinalities is an error

---
 veroku/factors/sparse_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index f8fda05..83d0e40 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -903,8 +903,11 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
+        assert len(vrs) == len(assignment) == len(self.var_names), "expected one value for every variable."
         var_names_to_vrs_indices = [list(vrs).index(v) for v in self.var_names]
         var_names_order_assignments = tuple([assignment[i] for i in var_names_to_vrs_indices])
+        if not all(0 <= value < card for value, card in zip(var_names_order_assignments, self.cardinalities)):
+            raise IndexError(f"values ({assignment}) of the variables ({vrs}) are out of range.")
         return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
-- 
2.43.0


From 6acae6ec3e6e0ccc7202de48de1fe4b4979d07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 55/75] fix: reordering a sparse table to some of its variables
 only is an error

---
 veroku/factors/sparse_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 83d0e40..1f2937a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -985,6 +985,8 @@ class SparseCategorical(Factor):
             1 0  pa1b0            1 0  pa0b1
             1 1  pa1b1            1 1  pa1b1
         """
+        if set(new_var_names_order) != set(self.var_names):
+            raise ValueError("The new_var_names_order set must be the same as the factor variables.")
         new_order_indices = [self.var_names.index(var) for var in new_var_names_order]
         new_log_probs_table = dict()
         for assignment, value in self.log_probs_table.items():
-- 
2.43.0


From 8824ae1d45d7df34adaee297d5928de895b7d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 56/75] fix: a Gaussian variable cannot be observed twice at
 once

---
 veroku/factors/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 6c413d9..be56519 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -687,6 +687,7 @@ class Gaussian(Factor):
         observed_vec = _factor_utils.make_column_vector(values)
 
         assert isinstance(vrs, list)  # just to future-proof interface
+        assert len(set(vrs)) == len(vrs), "observed variables must not be repeated."
         assert set(vrs) <= set(self._var_names), "observed variables must a be subset of the gaussian variables."
 
         unobserved_vars = list(set(self._var_names) - set(vrs))
-- 
2.43.0


From f709278ea16ea0cb28b5b96a390fe9fa27d00976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 57/75] fix: a factorised factor is observed only where it has
 variables, with one value each

---
 veroku/factors/experimental/factorised_factor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 4a20b1e..cfa6a89 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -269,6 +269,10 @@ class FactorizedFactor(Factor):
         :return: the resulting Gaussian
         :rtype: FactorizedFactor
         """
+        if not set(vrs) <= set(self.var_names):
+            raise ValueError(f"observed variables ({vrs}) are not all factor variables ({self.var_names}).")
+        if not len(set(vrs)) == len(vrs) == len(values):
+            raise ValueError(f"expected one value for every observed variable, got {vrs} and {values}.")
         all_evidence_dict = dict(zip(vrs, values))
         reduced_factors = []
         fully_observed_factors = []
-- 
2.43.0


From 68583d0cdb2f55f2241bd3aa5b39fb65fe804113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 58/75] fix: a factorised factor cannot keep variables it does
 not have

---
 veroku/factors/experimental/factorised_factor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index cfa6a89..a8f3ae1 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -177,6 +177,8 @@ class FactorizedFactor(Factor):
         #   information takes the form of the observed evidence and the conditioning factors.
 
         vars_to_keep = super().get_marginal_vars(vrs, keep)
+        if not set(vars_to_keep) <= set(self.var_names):
+            raise ValueError(f"variables to keep ({vars_to_keep}) are not all factor variables ({self.var_names}).")
         vars_to_integrate_out_set = set(self.var_names) - set(vars_to_keep)
         factors_in_keep_scope_indices = self._all_intersecting_factors_indices(vars_to_keep)
         if not factors_in_keep_scope_indices:
-- 
2.43.0


From c3408fa7795cebe97c75934689a9acc68f69f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 59/75] fix: a nonlinear Gaussian is observed only where it has
 variables, with one value each

---
 veroku/factors/experimental/nonlinear_gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 507aa3b..2661f8a 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -411,6 +411,10 @@ class NonLinearGaussian(Factor):
         :rtype: NonLinearGaussian
         """
 
+        if not set(vrs) <= set(self.var_names):
+            raise ValueError(f"observed variables ({vrs}) are not all factor variables ({self.var_names}).")
+        if not len(set(vrs)) == len(vrs) == len(values):
+            raise ValueError(f"expected one value for every observed variable, got {vrs} and {values}.")
         self_copy = self.copy()
         evidence_dict = dict(zip(vrs, values))
         self_copy.observed_evidence.update(evidence_dict)
-- 
2.43.0


From b2c6aeaabe328fb8f1052d7fe4624e078cc390d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 60/75] fix: the tensor of a dense table has to agree with the
 cardinalities given

---
 veroku/factors/categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index f854525..01abdbc 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -127,6 +127,8 @@ class Categorical(Factor):
         else:
             if len(log_probs_tensor.shape) != len(var_names):
                 raise ValueError("log_probs_tensor should have dimension equal to the number of variables.")
+            if tuple(log_probs_tensor.shape) != tuple(cardinalities):
+                raise ValueError(f"the shape of log_probs_tensor does not match the cardinalities ({cardinalities}).")
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-- 
2.43.0


From 2d4cc7f6cb1207e12d82c8d9b16be3e2cf48978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 61/75] fix: the plotted log-potential of a Gaussian mixture is
 the log of the sum of its components

---
 veroku/factors/experimental/gaussian_mixture.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 41fad9c..2fe94b6 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -408,15 +408,13 @@ class GaussianMixture(Factor):
                 x_upper = xlim[1]
             num_points = 200
             x_series = np.linspace(x_lower, x_upper, num_points)
-            total_potx = np.zeros(num_points)
-            for comp in self.components:
-                if log:
-                    potx = np.array([comp.log_potential(xi) for xi in x_series])
-                else:
-                    potx = np.array([comp.potential(xi) for xi in x_series])
-                if show_individual_components:
-                    plt.plot(x_series, potx)
-                total_potx += potx
+            if show_individual_components:
+                for comp in self.components:
+                    comp_potential = comp.log_potential if log else comp.potential
+                    plt.plot(x_series, np.array([comp_potential(xi) for xi in x_series]))
+            # the log-potential of the mixture is the log of the sum (not the sum of the logs) of its components
+            total_potential = self.log_potential if log else self.potential
+            total_potx = np.array([total_potential(xi) for xi in x_series])
             plt.plot(x_series, total_potx)
         elif self.dim == 2:
             self._plot_2d(log=log, xlim=xlim, ylim=ylim)
-- 
2.43.0


From 3098025180c513be1408d2a2346c86ab5ba79f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 62/75] fix: plotting a nonlinear Gaussian draws its current
 joint distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 2661f8a..1bfc57c 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -496,7 +496,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._recompute_joint()
-        self._joint_distribution.plot()
+        self_copy._joint_distribution.plot()
 
 
 class NonLinearGaussianMixture(Factor):
-- 
2.43.0


From 7e13e9c2fee479d86c7e649b9b3f13f12c4cfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 63/75] fix: a categorical factor without assignment names can
 be plotted

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 01abdbc..608d905 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -601,7 +601,7 @@ class Categorical(Factor):
                 if isinstance(elem, float):
                     processed_assignment_value_name = f"{elem:.2f}"
                 else:
-                    processed_assignment_value_name = elem
+                    processed_assignment_value_name = str(elem)
                 processed_assignment_value_names.append(processed_assignment_value_name)
             x_label = ", ".join(processed_assignment_value_names)
             return x_label
-- 
2.43.0


From 62992409b05bcaec1212a01aecbf6a6b4bd8e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 64/75] fix: the convergence plot marks exactly the infinite
 distances, whatever the finite ones are

---
 veroku/cluster_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 3b3204e..d35bdd3 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -292,11 +292,12 @@ class ClusterGraph:
 
         iterations = np.array(list(range(num_iterations))) / 2  # divide by 2 to correct for tile and flatten
         non_inf_max_distances = [d for d in mp_max_dists if d != np.inf]
-        max_non_inf = max(non_inf_max_distances)
-        new_inf_value = max_non_inf * 1.5
+        # logs of distances can be negative (and -inf), and there may be no finite distances
+        max_finite = max((d for d in non_inf_max_distances if d != -np.inf), default=0.0)
+        new_inf_value = max_finite * 1.5 if max_finite > 0.0 else max_finite + 1.0
         max_distances_replaces_infs = np.array([v if v != np.inf else new_inf_value for v in mp_max_dists])
         inf_values = np.ma.masked_where(
-            max_distances_replaces_infs != new_inf_value, max_distances_replaces_infs
+            [v != np.inf for v in mp_max_dists], max_distances_replaces_infs
         )
         plt.figure(figsize=figsize)
         plt.plot(iterations, max_distances_replaces_infs)
-- 
2.43.0


From ede9f9b2e4cb2cb31b7a5415537056146345ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:13 +0000
Subject: [PATCH 65/75] fix: show_vis failed because the color bar was drawn
 before the mean

---
 veroku/factors/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index be56519..12c929d 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -946,9 +946,9 @@ class Gaussian(Factor):
         cov_df = pd.DataFrame(data=self.get_cov(), index=self.var_names, columns=self.var_names)
         mean_df = pd.DataFrame(data=self.get_mean(), index=self.var_names, columns=["var_names"])
         cbar_kws = dict(use_gridspec=False, location="top")
+        # the mean is drawn first: pandas needs all axes of the figure to be in its grid, which the color bar is not
+        mean_df.plot.bar(ax=ax_mean, legend=False, rot=0)
         sns.heatmap(cov_df, ax=ax_cov, cbar=True, cbar_kws=cbar_kws, annot=True)
-        mean_df.plot.bar(ax=ax_mean, legend=False)
-        plt.xticks(rotation=0)
 
     def _get_limits_for_2d_plot(self):
         """
-- 
2.43.0


From a61f1b9b90a9308d50a371fc7a3e7f799c31000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:55 +0000
Subject: [PATCH 66/75] fix: the last message passed was missing from the
 animation

---
 veroku/cluster_graph.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index d35bdd3..76b1466 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -456,6 +456,13 @@ class ClusterGraph:
                 self.passed_messages.append(self.graph_message_paths[0].next_message.copy())
             self.graph_message_paths[0].pass_next_message()
             self.num_messages_passed += 1
+            if make_animation_gif:
+                cg_animation.add_message_pass_animation_frames(
+                    graph=self._graph,
+                    frames=self.message_passing_animation_frames,
+                    node_a_name=sender_cluster_id,
+                    node_b_name=receiver_cluster_id,
+                )
             self.graph_message_paths = collections.deque(
                 sorted(self.graph_message_paths, key=key_func, reverse=True)
             )
@@ -467,14 +474,6 @@ class ClusterGraph:
             if max_next_information_gain <= tol:
                 return
 
-            if make_animation_gif:
-                cg_animation.add_message_pass_animation_frames(
-                    graph=self._graph,
-                    frames=self.message_passing_animation_frames,
-                    node_a_name=sender_cluster_id,
-                    node_b_name=receiver_cluster_id,
-                )
-
     @property
     def _last_passed_message_factors(self):
         """
-- 
2.43.0


From 6892a6acdab6bdf1757c887c82f22b58e41e83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:55 +0000
Subject: [PATCH 67/75] fix: clusters of variables with special characters in
 their names were not highlighted

---
 veroku/_cg_helpers/_animation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..9716bec 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -110,14 +110,15 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     """
 
     edge_found = False
+    name_a, name_b = re.escape(node_a_name), re.escape(node_b_name)
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                pattern = f'(\\t?"?{name_a}"?\s--\s"?{name_b}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(\\t?"?{name_b}"?\s--\s"?{name_a}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -140,7 +141,7 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0


From e371837399fbea4b89268ba53c26d9240251a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:02 +0000
Subject: [PATCH 68/75] fix: normalise a dense table whose log values are given
 as integers

The in-place subtraction of the (float) log weight raised an error for a
log_probs_tensor of an integer data type.
---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 608d905..e16088d 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -445,7 +445,7 @@ class Categorical(Factor):
         """
         factor_copy = self.copy()
         logz = special.logsumexp(self.log_probs_tensor)
-        factor_copy.log_probs_tensor -= logz
+        factor_copy.log_probs_tensor = factor_copy.log_probs_tensor - logz
         return factor_copy
 
     @staticmethod
-- 
2.43.0


From 48677c9648d85048241e63d6611550a892ab9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 69/75] fix: remove_duplicate_values compares vectors by all
 their elements

Division method 1 of Gaussian mixtures raised an error in more than one dimension.
---
 veroku/factors/_factor_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/_factor_utils.py b/veroku/factors/_factor_utils.py
index e56feb7..ed6defc 100644
--- a/veroku/factors/_factor_utils.py
+++ b/veroku/factors/_factor_utils.py
@@ -67,7 +67,7 @@ def remove_duplicate_values(array_like, tol=0.0):
     for element in array_like:
         element_is_duplicate = False
         for uval in unique_values:
-            if abs(uval - element) <= tol:
+            if np.all(np.abs(uval - element) <= tol):
                 element_is_duplicate = True
         if not element_is_duplicate:
             unique_values.append(element)
-- 
2.43.0


From 3f3c6d8356adbeed6316da0e40da54e025594c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 70/75] fix: division method 1 of mixtures uses the value and
 curvature of the quotient

The weight of a component was multiplied with the log determinant term instead
of having it added, was taken from the wrong function, and variables of the
divisor in another order were mixed up.
---
 .../factors/experimental/gaussian_mixture.py  | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 2fe94b6..4270f98 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -562,6 +562,21 @@ class GaussianMixture(Factor):
         g_val = log_weight - 0.5 * ut_k_u - 0.5 * log_det_term
         return prec.real, h_vec.real, g_val.real
 
+    @staticmethod
+    def _neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val):
+        """
+        Get the negative of the log value of the quotient of two Gaussian mixtures (gma/gmb).
+
+        :param gaussian_mixture_a: The numerator mixture
+        :param gaussian_mixture_b: The denominator mixture
+        :param x_val: The point to evaluate the quotient at (in the variable order of the numerator).
+        :return: The negative log value.
+        """
+        return -1.0 * (
+            gaussian_mixture_a.log_potential(x_val)
+            - gaussian_mixture_b.log_potential(x_val, vrs=gaussian_mixture_a.var_names)
+        )
+
     @staticmethod
     def _get_inverse_gaussians(gaussian_mixture_a, gaussian_mixture_b):
         """
@@ -587,14 +602,15 @@ class GaussianMixture(Factor):
             inverse_gaussian_mixtures.append(inverse_gaussian_mixture)
 
             minimum_loc = inverse_gaussian_mixture._argmin()
-            minimum_locations.append(minimum_loc)
+            # the variables can have a different order in the inverse components
+            order = [inverse_gaussian_mixture.var_names.index(var) for var in gaussian_mixture_a.var_names]
+            minimum_locations.append(minimum_loc[order])
 
         def neg_gm_log_quotient_potential(x_val):
             """
             Get the negative of the log value of the Gaussian mixture quotient (gma/gmb)
             """
-            potential = -1.0 * (gaussian_mixture_a.log_potential(x_val) - gaussian_mixture_b.log_potential(x_val))
-            return potential
+            return GaussianMixture._neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val)
 
         mode_locations = []
         for minimum_loc in minimum_locations:
@@ -623,19 +639,19 @@ class GaussianMixture(Factor):
         """
 
         resulting_gaussian_components = []
-        inverse_gaussian_mixtures, unique_mode_locations = GaussianMixture._get_inverse_gaussians(
-            gaussian_mixture_a, gaussian_mixture_b
-        )
-        inv_gm = GaussianMixture(inverse_gaussian_mixtures)
+        _, unique_mode_locations = GaussianMixture._get_inverse_gaussians(gaussian_mixture_a, gaussian_mixture_b)
+
+        def neg_log_quotient(x_val):
+            return GaussianMixture._neg_log_quotient_potential(gaussian_mixture_a, gaussian_mixture_b, x_val)
 
         for mode_location in unique_mode_locations:
-            prec_i = nd.Hessian(inv_gm.log_potential)(mode_location)
+            prec_i = nd.Hessian(neg_log_quotient)(mode_location)
             mean_i = _factor_utils.make_column_vector(mode_location)
             h_i = prec_i.dot(mean_i)
 
+            # the component has the same value as the quotient at the mode
             ut_k_u = ((mean_i.transpose()).dot(prec_i)).dot(mean_i)
-            log_weight_i = -0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi))) * inv_gm.log_potential(mean_i)
-            g_i = log_weight_i - 0.5 * ut_k_u + 0.5 * np.log(np.linalg.det(prec_i / (2.0 * np.pi)))
+            g_i = -1.0 * neg_log_quotient(mode_location) - 0.5 * ut_k_u
 
             component = gauss.Gaussian(prec=prec_i, h_vec=h_i, g_val=g_i, var_names=gaussian_mixture_a.components[0].var_names)
             resulting_gaussian_components.append(component)
-- 
2.43.0


From ac6757706bc71e45ed2c218ceebb16e76ae53117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 71/75] fix: a vacuous Gaussian keeps its constant when nothing
 is integrated out

---
 veroku/factors/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 12c929d..be939f6 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -517,8 +517,9 @@ class Gaussian(Factor):
         vars_to_keep = super().get_marginal_vars(vrs, keep)
         vars_to_integrate_out = list(set(self.var_names) - set(vars_to_keep))
         if self._is_vacuous:
-            # TODO: check this (esp log_weight)
-            return Gaussian.make_vacuous(var_names=vars_to_keep)
+            # the mass over the removed variables is infinite, the constant is only meaningful without any
+            g_val = self.g_val if len(vars_to_integrate_out) == 0 else 0.0
+            return Gaussian.make_vacuous(var_names=vars_to_keep, g_val=g_val)
 
         if self.canform:
             return self._canform_marginalise(vars_to_keep, vars_to_integrate_out)
-- 
2.43.0


From a1ad21e2d98ef6930de4c46244e269f4bcf3487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:21 +0000
Subject: [PATCH 72/75] fix: nonlinear Gaussians keep the constant of vacuous
 factors they absorb or cancel

---
 veroku/factors/experimental/nonlinear_gaussian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 1bfc57c..ea1a74e 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -344,7 +344,8 @@ class NonLinearGaussian(Factor):
                 "Multiplication of two nonlinear-Gaussian factors has not been implemented."
             )
         if factor._is_vacuous:
-            # TODO: check this (esp to see what to do with)
+            # a vacuous factor is a constant function
+            self_copy.add_log_weight(factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
@@ -378,7 +379,8 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         if factor._is_vacuous:
-            # TODO: check this (esp to see what to do with)
+            # a vacuous factor is a constant function
+            self_copy.add_log_weight(-1.0 * factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
-- 
2.43.0


From 8312c7c9933885f474eb73c9ebc363136702e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:21 +0000
Subject: [PATCH 73/75] fix: nonlinear Gaussian mixtures only split proper
 Gaussians

Absorbing a vacuous or improper one dimensional Gaussian raised an error.
---
 veroku/factors/experimental/nonlinear_gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index ea1a74e..bac2f69 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -571,7 +571,8 @@ class NonLinearGaussianMixture(Factor):
         # TODO: Generalise the Gaussian.split_gaussian function to more than one dimensional cases and remove the
         #  limitation here
         if self.split_singles_before_absorb and len(gm_factor.var_names) == 1:
-            if len(gm_factor.components) == 1:
+            # only a proper Gaussian has moments that a split can preserve
+            if len(gm_factor.components) == 1 and _factor_utils.is_pos_def(gm_factor.components[0].get_prec()):
                 gm_factor = gm_factor.components[0]._split_gaussian()
 
         new_nlgs = []
-- 
2.43.0


From df0a8f0fb18dcde8a722787737ffe1a99f4c6d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:21 +0000
Subject: [PATCH 74/75] fix: nonlinear Gaussian mixtures sample their joint
 distribution

The samples of the components were concatenated along the variables and ignored
the weights of the components.
---
 veroku/factors/experimental/nonlinear_gaussian.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index bac2f69..5e5eaa3 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -639,13 +639,7 @@ class NonLinearGaussianMixture(Factor):
         :return: The samples.
         :rtype: int
         """
-
-        # TODO: fix incorrect num samples issue
-        sample_sets = []
-        for nlg in self.nlgs:
-            samples = nlg.sample(num_samples)
-            sample_sets.append(samples)
-        return np.concatenate(sample_sets)
+        return self.joint_distribution.sample(num_samples)
 
     def plot(self):
         """
-- 
2.43.0


From 8c48f90a811c223de809ce9cffa72980ccd1e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:36 +0000
Subject: [PATCH 75/75] fix: sparse equality compared defaults and left-out
 entries exactly and ignored complementary entries

---
 veroku/factors/sparse_categorical.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 1f2937a..62a7dfe 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -475,16 +475,10 @@ class SparseCategorical(Factor):
         :rtype: bool
         """
 
-        for assign, factor_log_prob in self.log_probs_table.items():
-
-            if assign not in factor.log_probs_table:
-                # TODO: make this `not is_close` and simplify this method
-                if factor_log_prob != factor.default_log_prob:
-                    return False
-            else:
-                self_log_prob = factor.log_probs_table[assign]
-                if not np.isclose(self_log_prob, factor_log_prob, rtol=rtol, atol=atol):
-                    return False
+        for assign, self_log_prob in self.log_probs_table.items():
+            factor_log_prob = factor.log_probs_table.get(assign, factor.default_log_prob)
+            if not np.isclose(factor_log_prob, self_log_prob, rtol=rtol, atol=atol):
+                return False
         return True
 
     def equals(self, factor, rtol=DEFAULT_FACTOR_RTOL, atol=DEFAULT_FACTOR_ATOL):
@@ -519,8 +513,9 @@ class SparseCategorical(Factor):
             return False
 
         # If all possible assignments have not been checked - check that the default values are the same
-        if not self._is_dense() and not factor._is_dense():
-            if self.default_log_prob != factor.default_log_prob:
+        num_checked_assignments = len({*self.log_probs_table, *factor_.log_probs_table})
+        if num_checked_assignments < np.prod(self.cardinalities):
+            if not np.isclose(factor_.default_log_prob, self.default_log_prob, rtol=rtol, atol=atol):
                 return False
 
         return True
-- 
2.43.0

