From 8970770152005950a4af204936ea74e32268bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:48 +0000
Subject: [PATCH 01/66] fix: not-equals conditions are not satisfied by an
 unset parent

The vectorized checks compared NaN with the condition value, which is
always unequal, so a child of an inactive parent was treated as active.
---
 src/ConfigSpace/conditions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index f7bd20d..e896003 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -239,6 +239,17 @@ class NotEqualsCondition(BinaryOpCondition):
     _OP = operator.ne
     _VECTOR_OP = operator.ne
 
+    @override
+    def satisfied_by_vector(self, vector: Array[f64]) -> bool:
+        # NOTE: `nan != x` is always true but an unset parent satisfies nothing
+        parent_value = vector[self.parent_vector_id]
+        return not np.isnan(parent_value) and super().satisfied_by_vector(vector)
+
+    @override
+    def satisfied_by_vector_array(self, arr: Array[f64]) -> Mask:
+        parent_values = arr[self.parent_vector_id]
+        return ~np.isnan(parent_values) & super().satisfied_by_vector_array(arr)
+
 
 class LessThanCondition(BinaryOpCondition):
     """Hyperparameter `child` is conditional on the `parent` hyperparameter
-- 
2.43.0


From c2ab9e861f8ea9a90454f7542d8c825903303250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:20 +0000
Subject: [PATCH 02/66] fix: report hyperparameters with a satisfied
 disjunction as active

A child of an OrConjunction was reported as inactive when any of its
parents was inactive, even if another alternative was satisfied.
---
 src/ConfigSpace/configuration_space.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index c0c0ecc..a9959e1 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -512,17 +512,6 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             active = True
             for condition in conditions:
-                parent_vector_idx: np.intp | Array[np.intp]
-                if isinstance(condition, Conjunction):
-                    assert condition.parent_vector_ids is not None
-                    parent_vector_idx = condition.parent_vector_ids
-                else:
-                    parent_vector_idx = np.asarray(condition.parent_vector_id)
-
-                if np.isnan(vector[parent_vector_idx]).any():
-                    active = False
-                    break
-
                 if not condition.satisfied_by_vector(vector):
                     active = False
                     break
-- 
2.43.0


From 0309f9186a90f46ec6b9fffe0607f76fb8bb4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:31 +0000
Subject: [PATCH 03/66] fix: evaluate conditions after all of their parents

Conditions were ordered by their shallowest parent. A conjunction with
one deep parent could be evaluated before that parent was deactivated,
which gave invalid samples and edits.
---
 src/ConfigSpace/_condition_tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index 30fbac9..d26e858 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -589,10 +589,10 @@ class DAG:
             if a is not b:
                 assert a.unique_children.keys().isdisjoint(b.unique_children.keys())
 
-        def shallowest_parent(_x: ConditionNode) -> int:
-            return min(self.nodes[_p].maximum_depth for _p in _x.node_parents())
+        def deepest_parent(_x: ConditionNode) -> int:
+            return max(self.nodes[_p].maximum_depth for _p in _x.node_parents())
 
-        self.minimum_conditions = sorted(minimum_conditions, key=shallowest_parent)
+        self.minimum_conditions = sorted(minimum_conditions, key=deepest_parent)
 
         condition_trees = {id(c): c for c in self.minimum_conditions}
         updated = True
@@ -605,12 +605,12 @@ class DAG:
 
                 if b.depends_on(a):
                     a.dependants.append(b)
-                    a.dependants = sorted(a.dependants, key=shallowest_parent)
+                    a.dependants = sorted(a.dependants, key=deepest_parent)
                     if id(b) in condition_trees:
                         condition_trees.pop(id(b))
                     updated = True
 
-        sorted_condition_trees = sorted(condition_trees.values(), key=shallowest_parent)
+        sorted_condition_trees = sorted(condition_trees.values(), key=deepest_parent)
 
         # Now we go through the trees and update the lookup
         # Note that it's possible to have reconverging paths, i.e.
@@ -627,7 +627,7 @@ class DAG:
                     self.change_hp_lookup[parent].extend([tree, *tree.dependants])
                     self.change_hp_lookup[parent] = sorted(
                         self.change_hp_lookup[parent],
-                        key=shallowest_parent,
+                        key=deepest_parent,
                     )
 
             trees.extend(tree.dependants)
-- 
2.43.0


From d018104bc53dfacc7367a52be0125cb3fef34aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:41 +0000
Subject: [PATCH 04/66] fix: do not merge conjunctions of different type

Conditions with equivalent parts are grouped to be evaluated once. An
AndConjunction and an OrConjunction over the same conditions ended up in
the same group and one of the children got the wrong activation.
---
 src/ConfigSpace/conditions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index e896003..290d4c8 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -470,17 +470,20 @@ class Conjunction:
 
     def equivalent_condition_on_parent(self, other: ConditionLike) -> bool:
         # Not entirely true but it's a good enough approximation
-        if not isinstance(other, Conjunction):
+        if type(self) is not type(other):
             return False
 
         if len(self.components) != len(other.components):
             return False
 
         # Each condition must match at one of the other conditions, which is of the same
-        # conjunction type and has equal amount of components
+        # conjunction type and has equal amount of components, and vice versa
         return all(
             any(c.equivalent_condition_on_parent(o) for o in other.components)
             for c in self.components
+        ) and all(
+            any(o.equivalent_condition_on_parent(c) for c in self.components)
+            for o in other.components
         )
 
     @abstractmethod
-- 
2.43.0


From eca5a3fd63a03280b9382f7134678f59eef45934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:22 +0000
Subject: [PATCH 05/66] fix: check that vectorized root values are legal

check_configuration only verified the values of conditional
hyperparameters, so out of range vectors of roots were accepted.
---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f93baab..823f93c 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -580,6 +580,9 @@ def check_configuration(  # noqa: D103
         if not activated[hp_idx]:
             raise ActiveHyperparameterNotSetError(root.hp)
 
+        if not root.hp._transformer.legal_vector_single(vector[hp_idx]):
+            raise IllegalVectorizedValueError(root.hp, vector[hp_idx])
+
     for cnode in space._dag.minimum_conditions:
         # Everything for the condition is satisfied, make sure active
         # hyperparameters are set, legal and not forbidden
-- 
2.43.0


From d064bdd8b852e125af5ac00af11f4eb1370e9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:59 +0000
Subject: [PATCH 06/66] fix: copy the hyperparameter when copying forbidden
 clauses

Adding a sub space renames the hyperparameters of the copied clauses.
The copies shared the hyperparameter with the original clause, so the
hyperparameters of the added space were renamed as well.
---
 src/ConfigSpace/forbidden.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/forbidden.py b/src/ConfigSpace/forbidden.py
index 5eb535d..3e56d43 100644
--- a/src/ConfigSpace/forbidden.py
+++ b/src/ConfigSpace/forbidden.py
@@ -360,7 +360,7 @@ class ForbiddenEqualsClause(ForbiddenClause):
         return f"Forbidden: {self.hyperparameter.name} == {self.value!r}"
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, value=self.value)
+        return self.__class__(hyperparameter=copy(self.hyperparameter), value=self.value)
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
@@ -452,7 +452,10 @@ class ForbiddenInClause(ForbiddenClause):
         return all(value in other.values for value in self.values)
 
     def __copy__(self) -> Self:
-        return self.__class__(hyperparameter=self.hyperparameter, values=self.values)
+        return self.__class__(
+            hyperparameter=copy(self.hyperparameter),
+            values=self.values,
+        )
 
     @override
     def is_forbidden_value(self, values: dict[str, Any]) -> bool:
-- 
2.43.0


From 463f827d7b6183e2c816e74c256a36065a1b45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:56 +0000
Subject: [PATCH 07/66] fix: keep nested conjunctions when substituting
 hyperparameters

The conditions were rebuilt from their literals, so a disjunction nested
in a conjunction turned into a flat conjunction.
---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index a9959e1..ca25f6d 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -711,7 +711,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for condition in conditions:
             if isinstance(condition, Conjunction):
                 conjunction_type = type(condition)
-                children = condition.dlcs
+                children = condition.components
                 substituted_children = (
                     ConfigurationSpace.substitute_hyperparameters_in_conditions(
                         children,
-- 
2.43.0


From 05a75222a628ab5ff329e62cb2c9a3228fb19665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 08/66] fix: equal configurations have equal hashes

The hash was taken from the printed form, which differs for values that
compare equal, for example 1 and 1.0 or numpy and python strings.
---
 src/ConfigSpace/configuration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index 1b556f7..a001991 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -245,7 +245,12 @@ class Configuration(Mapping[str, Any]):
         return NotImplemented
 
     def __hash__(self) -> int:
-        return hash(self.__repr__())
+        # NOTE: Equal values may have different representations, i.e. `1` and `1.0`
+        values = dict(self)
+        try:
+            return hash(frozenset(values.items()))
+        except TypeError:
+            return hash(frozenset(values))
 
     def __str__(self) -> str:
         values = dict(self)
-- 
2.43.0


From dd1afaadcee7c77b35ab4bd2b5f8e55cc217fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:17 +0000
Subject: [PATCH 09/66] fix: ignore lazily computed densities when comparing
 distributions

Computing the density of an integer hyperparameter made it unequal to an
otherwise identical one.
---
 src/ConfigSpace/hyperparameters/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 993e72a..bc254f8 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -426,6 +426,10 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return NotImplemented
 
         for key in self.__dict__:
+            # Lazily computed, may not be filled yet
+            if key in ("_max_density", "_pdf_norm"):
+                continue
+
             if key == "rv":
                 if not _compare_rv(self.__dict__[key], value.__dict__[key]):
                     return False
-- 
2.43.0


From 95f8649c7f2576d261fbe27fdc07950025af3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:50 +0000
Subject: [PATCH 10/66] fix: exhaustive neighborhoods of normal and beta
 integers

Asking for at least as many neighbors as there are gave one point too
many below the center, spaced such that some of them were duplicated or
did not correspond to any integer.
---
 src/ConfigSpace/hyperparameters/distributions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index bc254f8..421fe7d 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -660,16 +660,9 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
 
                 top = self.transformer.to_vector(top_orig)
             else:
-                stepsize = (upper - lower) / (self.steps - 1)
-
-                # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector - lower) / stepsize) + 1
-                if steps_to_take == 1:
-                    bottom = np.array([])
-                else:
-                    bottom = np.linspace(lower, qvector, steps_to_take, endpoint=False)
-
-                top = np.linspace(qvector + stepsize, upper, steps - steps_to_take)
+                step = int(np.rint((qvector - lower) / (upper - lower) * (steps - 1)))
+                bottom = np.arange(0, step) / (steps - 1) * (upper - lower) + lower
+                top = np.arange(step + 1, steps) / (steps - 1) * (upper - lower) + lower
 
             return np.concatenate((bottom, top))
 
-- 
2.43.0


From bf0ef13878b080de329309c1870547a09c9305cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:37 +0000
Subject: [PATCH 11/66] fix: sample legal values from log scaled normal and
 beta integers

The samples and neighbors were quantized to evenly spaced steps in
vectorized space, while the integers are not evenly spaced on a log
scale. Most vectors were illegal and some integers were unreachable. The
densities keep their current normalization.
---
 src/ConfigSpace/hyperparameters/beta_integer.py   | 3 +++
 src/ConfigSpace/hyperparameters/distributions.py  | 7 ++++++-
 src/ConfigSpace/hyperparameters/normal_integer.py | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index a1495aa..8f907c4 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -145,6 +145,9 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
             steps=size,
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            log_scale=self.log,
+            transformer=scaler if self.log else None,
+            linear_density=True,
         )
 
         super().__init__(
diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 421fe7d..1edfbc2 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -394,6 +394,11 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
     This is used on log-scale transformation.
     """
 
+    linear_density: bool = False
+    """Whether the density is evaluated on evenly spaced steps in vectorized space,
+    even if `log_scale=True`.
+    """
+
     def __post_init__(self) -> None:
         if self.steps < 1:
             raise ValueError("The number of steps must be at least 1.")
@@ -486,7 +491,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         qlow, qhigh = self._quantize(x=np.array([lower, upper]))
 
         # If we're not on a log-scale, we do simple uniform distance steps
-        if not self.log_scale:
+        if not self.log_scale or self.linear_density:
             stepsize = (upper - lower) / (self.steps - 1)
             steps_intermediate = (qhigh - qlow) / stepsize + 1
             return linspace_chunked(
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index a975068..abb1cd2 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -149,6 +149,9 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
             steps=int(size),
             lower_vectorized=f64(0.0),
             upper_vectorized=f64(1.0),
+            log_scale=self.log,
+            transformer=scaler if self.log else None,
+            linear_density=True,
         )
         super().__init__(
             name=name,
-- 
2.43.0


From 58a9c65b90218eb193bc8bc26b8f98b3143f1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:01 +0000
Subject: [PATCH 12/66] fix: sample the exact vectors of log scaled integers

The sampled vectors could differ in the last digits from the vector of
the same integer, such that conditions and forbidden clauses on that
integer were missed.
---
 src/ConfigSpace/hyperparameters/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 1edfbc2..df9a10f 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -542,12 +542,16 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
             return quantize(x, bounds=vectorized_bounds, bins=self.steps)
 
         assert self.original_value_scale
-        return quantize_log(
+        assert self.transformer is not None
+        qx = quantize_log(
             x,
             bounds=vectorized_bounds,
             scale_slice=(self.original_value_scale),
             bins=self.steps,
         )
+        # Conditions and forbiddens compare vectors exactly, make sure we give
+        # precisely the vectors the values are transformed to
+        return self.transformer.to_vector(self.transformer.to_value(qx))
 
     def pdf_vector(self, vector: Array[f64]) -> Array[f64]:
         """Calculate the probability density function (pdf) of all elements in `vector`.
-- 
2.43.0


From 360cccec71790e047602abdd9d9815ab18a9630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:09 +0000
Subject: [PATCH 13/66] fix: conditions on values that are missing are not
 satisfied

Evaluating a conjunction on a dictionary without one of its parents
raised a KeyError, which made generate_grid fail on spaces where only
some of the parents are active.
---
 src/ConfigSpace/conditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 290d4c8..99448dc 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -165,7 +165,7 @@ class BinaryOpCondition(Condition):
         return self._VECTOR_OP(vector, self.vector_value)
 
     def satisfied_by_value(self, values: dict[str, Any]) -> bool:
-        value = values[self.parent.name]
+        value = values.get(self.parent.name, NotSet)
         if value is NotSet:
             return False
 
@@ -370,7 +370,7 @@ class InCondition(Condition):
         return np.isin(vector, self.vector_values)
 
     def satisfied_by_value(self, values: dict[str, Any]) -> bool:
-        value = values[self.parent.name]
+        value = values.get(self.parent.name, NotSet)
         if value is NotSet:
             return False
         return bool(value in self.values)
-- 
2.43.0


From 3c53cb5a046832500eff6d7978dd5333ad2927d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:21 +0000
Subject: [PATCH 14/66] fix: stop get_random_neighbor after 10000 rejected
 configurations

This is documented to raise a ValueError but looped forever if every
change of a single hyperparameter is invalid.
---
 src/ConfigSpace/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 823f93c..8fddf7b 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -374,6 +374,7 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
     """
     random = np.random.RandomState(seed)
     rejected = True
+    n_rejected = 0
     values = copy.deepcopy(dict(configuration))
     new_configuration = None
 
@@ -425,6 +426,12 @@ def get_random_neighbor(configuration: Configuration, seed: int) -> Configuratio
             rejected = False
         except ValueError:
             values[hp.name] = previous_value
+            n_rejected += 1
+            if n_rejected > 10000:
+                raise ValueError(
+                    "Could not find a valid neighbor, more than 10000 configurations"
+                    " were rejected.",
+                ) from None
 
     assert new_configuration is not None
     return new_configuration
-- 
2.43.0


From 8e5dd7d6121e466ecc658731e7d97d778dc8b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:31 +0000
Subject: [PATCH 15/66] fix: check all forbidden clauses of one-exchange
 neighbors

Only the clauses of the changed hyperparameter were checked. The change
may activate other hyperparameters, whose defaults can be forbidden.
---
 src/ConfigSpace/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 8fddf7b..89057af 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -326,7 +326,7 @@ def get_one_exchange_neighbourhood(
             )
 
             is_valid = True
-            for forbidden in space._dag.forbidden_lookup.get(hp_name, []):
+            for forbidden in space._dag.fast_forbidden_checks:
                 if forbidden.is_forbidden_vector(new_arr):
                     is_valid = False
                     break
-- 
2.43.0


From c5ebd56a094aec67ba39f1fa44907d361afa3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:00 +0000
Subject: [PATCH 16/66] fix: ignore allowed inactive values when checking a
 configuration

With allow_inactive_with_values=True the values of inactive
hyperparameters were able to activate others and to violate forbidden
clauses, so imputing the inactive values of a valid configuration could
fail.
---
 src/ConfigSpace/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 89057af..d292bbd 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -581,6 +581,10 @@ def check_configuration(  # noqa: D103
 ) -> None:
     activated = np.isfinite(vector)
 
+    if allow_inactive_with_values:
+        # We mask out the values of inactive hyperparameters below
+        vector = vector.copy()
+
     # Make sure the roots are all good
     for root in space._dag.roots.values():
         hp_idx = root.idx
@@ -617,6 +621,10 @@ def check_configuration(  # noqa: D103
                 hp = space[hp_name]
                 raise InactiveHyperparameterSetError(hp, hp.to_value(vector[idx]))
 
+        else:
+            # Values of inactive hyperparameters do not activate or forbid anything
+            vector[children_idxs] = np.nan
+
     for forbidden in space._dag.fast_forbidden_checks:
         if forbidden.is_forbidden_vector(vector):
             raise ForbiddenValueError(
-- 
2.43.0


From d9d995e6821b7c69ce0b6437d1da4d02832bbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:11 +0000
Subject: [PATCH 17/66] fix: deactivate all descendants of inactive
 hyperparameters

The traversal stopped at hyperparameters which were already missing from
the configuration, leaving the values of their descendants in place.
---
 src/ConfigSpace/util.py | 52 +++++++----------------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index d292bbd..222a9c4 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -463,7 +463,6 @@ def deactivate_inactive_hyperparameters(
         that inactivate hyperparameters have been removed.
     """
     space = configuration_space
-    hyperparameters = list(space.values())
     config = Configuration(
         configuration_space=configuration_space,
         values=configuration,
@@ -471,50 +470,17 @@ def deactivate_inactive_hyperparameters(
         allow_inactive_with_values=True,
     )
 
-    hps: deque[Hyperparameter] = deque()
-    hps.extendleft(
-        [
-            space[hp]
-            for hp in space.unconditional_hyperparameters
-            if len(space.children_of[hp]) > 0
-        ],
-    )
+    values = dict(config)
+    arr = config.get_array().copy()
 
-    inactive = set()
-
-    while len(hps) > 0:
-        hp = hps.pop()
-        for child in space.children_of[hp.name]:
-            for condition in space.parent_conditions_of[child.name]:
-                if not condition.satisfied_by_vector(config.get_array()):
-                    dic = dict(config)
-                    try:
-                        del dic[child.name]
-                    except KeyError:
-                        continue
-
-                    config = Configuration(
-                        configuration_space=space,
-                        values=dic,
-                        allow_inactive_with_values=True,
-                    )
-                    inactive.add(child.name)
-                hps.appendleft(child)
-
-    for hp in hyperparameters:
-        if hp.name in inactive:
-            dic = dict(config)
-            try:
-                del dic[hp.name]
-            except KeyError:
-                continue
-            config = Configuration(
-                configuration_space=configuration_space,
-                values=dic,
-                allow_inactive_with_values=True,
-            )
+    # NOTE: These are sorted such that all parents come before their children
+    for cnode in space._dag.minimum_conditions:
+        if not cnode.condition.satisfied_by_vector(arr):
+            arr[cnode.children_indices] = np.nan
+            for child in cnode.unique_children.values():
+                values.pop(child.name, None)
 
-    return Configuration(configuration_space, values=dict(config))
+    return Configuration(configuration_space, values=values)
 
 
 def fix_types(
-- 
2.43.0


From ee3fb5d34b77eab956ca1e75cb92bfd6b691667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:05 +0000
Subject: [PATCH 18/66] fix: do not modify the dictionary when deserializing a
 space

The types were removed from the given dictionary, so it could only be
read once.
---
 src/ConfigSpace/configuration_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index ca25f6d..e593201 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -1023,6 +1023,8 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 cs: ConfigurationSpace,
                 _dec: _Decoder,
             ) -> Any:
+                # Decoders consume the item, don't modify what the user gave us
+                item = dict(item)
                 _type = item.pop("type", None)
                 if _type is None:
                     raise KeyError(
-- 
2.43.0


From 32841bb7d4fce49d206a92d329e632fbbf848676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:27 +0000
Subject: [PATCH 19/66] fix: copy hyperparameters through their constructor

Hyperparameter.copy used dataclasses.replace, which passes internal
fields to the constructor and raised a TypeError for every
hyperparameter.
---
 src/ConfigSpace/hyperparameters/hyperparameter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index 9fb12f9..b292ce4 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -3,7 +3,8 @@ from __future__ import annotations
 import warnings
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Hashable, Mapping, Sequence
-from dataclasses import dataclass, field, replace
+from dataclasses import dataclass, field
+from inspect import signature
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -535,9 +536,10 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
             A copy of the hyperparameter with the updated attributes.
         """
         # HACK: Really the only thing implementing Hyperparameter should be a dataclass
-        # If a hyperparameter is somehow not a dataclass, it will likely need to
-        # overwrite this.
-        return replace(self, **kwargs)  # type: ignore
+        # which keeps its arguments as attributes. If this is somehow not the case for
+        # a hyperparameter, it will likely need to overwrite this.
+        init_args = {arg: getattr(self, arg) for arg in signature(type(self)).parameters}
+        return type(self)(**{**init_args, **kwargs})
 
     def get_num_neighbors(
         self,
-- 
2.43.0


From 00c13d51e01570095047de03168db26f411e25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:50 +0000
Subject: [PATCH 20/66] fix: respect the number of neighbors for small
 categoricals

Categoricals with up to five choices always returned all neighbors.
---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index bf39514..b95e759 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -78,7 +78,7 @@ class NeighborhoodCat(Neighborhood):
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-            return choices
+            return choices[:n]
 
         if self._cached_arange is not None:
             _range = self._cached_arange
-- 
2.43.0


From 36f94dfc21556490536fbf2fa8de6eb352809e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:59 +0000
Subject: [PATCH 21/66] fix: constants have no neighbors

The empty neighborhood was an uninitialized array with a single item.
---
 src/ConfigSpace/hyperparameters/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 0fe8a58..8468323 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -20,7 +20,7 @@ CONSTANT_VECTOR_VALUE_NO = f64(0)
 
 
 def _empty_neighborhood(*_: Any, **__: Any) -> Array[f64]:
-    return np.ndarray([], dtype=f64)
+    return np.array([], dtype=f64)
 
 
 @dataclass(init=False)
-- 
2.43.0


From 4c7e58f31bab73cee04595bec473677feea8f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:31 +0000
Subject: [PATCH 22/66] fix: keep the default within the bounds when converting
 to integer

The bounds are rounded inwards, while the default was rounded to the
nearest integer, which may lie outside of these bounds.
---
 src/ConfigSpace/hyperparameters/beta_float.py    | 2 +-
 src/ConfigSpace/hyperparameters/normal_float.py  | 6 +++++-
 src/ConfigSpace/hyperparameters/uniform_float.py | 9 ++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index a285618..fc1051b 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -169,7 +169,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
 
         lower = int(np.ceil(self.lower))
         upper = int(np.floor(self.upper))
-        default_value = int(np.rint(self.default_value))
+        default_value = min(max(int(np.rint(self.default_value)), lower), upper)
 
         return BetaIntegerHyperparameter(
             name=self.name,
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 5c8da56..13e8675 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -169,7 +169,11 @@ class NormalFloatHyperparameter(FloatHyperparameter):
             sigma=self.sigma,
             lower=np.ceil(self.lower),
             upper=np.floor(self.upper),
-            default_value=np.rint(self.default_value),
+            default_value=np.clip(
+                np.rint(self.default_value),
+                np.ceil(self.lower),
+                np.floor(self.upper),
+            ),
             log=self.log,
         )
 
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 255a470..24b5a78 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -134,11 +134,14 @@ class UniformFloatHyperparameter(FloatHyperparameter):
             UniformIntegerHyperparameter,
         )
 
+        lower = math.ceil(self.lower)
+        upper = math.floor(self.upper)
+
         return UniformIntegerHyperparameter(
             name=self.name,
-            lower=math.ceil(self.lower),
-            upper=math.floor(self.upper),
-            default_value=round(self.default_value),
+            lower=lower,
+            upper=upper,
+            default_value=min(max(round(self.default_value), lower), upper),
             log=self.log,
             meta=None,
         )
-- 
2.43.0


From 528c90dc962085ee6db859e81b11f3db7ce4d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:53 +0000
Subject: [PATCH 23/66] fix: find enough neighbors of log scaled integers

Steps which are close together on the log scale are rarely sampled, so
asking for most of the neighbors raised a ValueError. This also made
get_one_exchange_neighbourhood fail at random.
---
 src/ConfigSpace/hyperparameters/distributions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index df9a10f..4b821f5 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -718,6 +718,14 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 # Ensure we don't include the initial value point
                 return neighbors[1 : n + 1]
 
+        # Steps that are close together, i.e. on a log scale, are unlikely to be
+        # sampled. Fill up with the ones we did not find.
+        if n_available < 1000000:
+            available = self.neighborhood(vector, n_available)
+            missing = np.setdiff1d(available, neighbors[:offset])
+            seed.shuffle(missing)
+            return np.concatenate((neighbors[1:offset], missing))[:n]
+
         raise ValueError(
             f"Failed to find enough neighbors with {n_retries} retries."
             f" Given {n=} neighbors to generate, we only found {offset - 1}."
-- 
2.43.0


From 1097c6c78646b184ba5c9ce715af625ef401572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:32 +0000
Subject: [PATCH 24/66] fix: equality of spaces does not depend on the order of
 forbiddens

The forbidden clauses of a hyperparameter were kept from previous
updates, in the order in which they were added.
---
 src/ConfigSpace/_condition_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/_condition_tree.py b/src/ConfigSpace/_condition_tree.py
index d26e858..7478c17 100644
--- a/src/ConfigSpace/_condition_tree.py
+++ b/src/ConfigSpace/_condition_tree.py
@@ -516,6 +516,10 @@ class DAG:
             else:
                 raise NotImplementedError(type(_f))
 
+        # These are filled below from all the forbiddens we know of
+        for node in nodes.values():
+            node.forbiddens = []
+
         # Sort forbiddens so it's always same order
         for forbidden in sorted(self.forbiddens, key=str):
             _sort_forbiddens(forbidden)
-- 
2.43.0


From 749b9e5b2ceff41c7eba3a948f358f3532bf912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:38 +0000
Subject: [PATCH 25/66] fix: serialize the values of membership clauses as
 lists

Tuples are written to YAML with a python specific tag which can not be
read back, and are read back as lists from JSON, such that an
InCondition with a tuple was not equal after a round trip.
---
 src/ConfigSpace/conditions.py                | 1 +
 src/ConfigSpace/read_and_write/dictionary.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/conditions.py b/src/ConfigSpace/conditions.py
index 99448dc..0fb9b78 100644
--- a/src/ConfigSpace/conditions.py
+++ b/src/ConfigSpace/conditions.py
@@ -336,6 +336,7 @@ class InCondition(Condition):
         parent: Hyperparameter,
         values: list[Any],
     ) -> None:
+        values = list(values)
         super().__init__(child, parent, values)
         for value in values:
             if not parent.legal_value(value):
diff --git a/src/ConfigSpace/read_and_write/dictionary.py b/src/ConfigSpace/read_and_write/dictionary.py
index 360b874..234c57c 100644
--- a/src/ConfigSpace/read_and_write/dictionary.py
+++ b/src/ConfigSpace/read_and_write/dictionary.py
@@ -496,7 +496,7 @@ def _encode_in_condition(
     return {
         "child": cond.child.name,
         "parent": cond.parent.name,
-        "values": cond.values,
+        "values": list(cond.values),
     }
 
 
@@ -531,7 +531,7 @@ def _encode_forbidden_in(
     cond: ForbiddenInClause,
     encode: _Encoder,  # noqa: ARG001
 ) -> dict[str, Any]:
-    return {"name": cond.hyperparameter.name, "values": cond.values}
+    return {"name": cond.hyperparameter.name, "values": list(cond.values)}
 
 
 def _encode_forbidden_and(
-- 
2.43.0


From 4fb66f83230ad073fb29fd05da3c5a7da7b3b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:44 +0000
Subject: [PATCH 26/66] fix: do not accept fractions for large integers

The relative tolerance of the integer check let through any number in
the bounds of an integer hyperparameter once its values exceeded 50000.
---
 .../hyperparameters/hp_components.py          | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index bafc306..0dff3f1 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -26,6 +26,9 @@ CONSTANT_VECTOR_VALUE = i64(0)
 # due to transforms. This seems to be a relatively stable point
 ROUND_PLACES = 13
 ATOL = 1e-13
+# Relative tolerance to consider large numbers as integers, must not exceed half
+# of the distance between them
+RTOL = 1e-10
 
 T_contra = TypeVar("T_contra", contravariant=True)
 
@@ -368,7 +371,7 @@ class UnitScaler(Transformer[DType]):
             return (  # type: ignore
                 (rints >= self._lower_value_f64)
                 & (rints <= self._upper_value_f64)
-                & is_close_to_integer(value, atol=ATOL)
+                & is_close_to_integer(value, atol=ATOL, rtol=RTOL)
             )
 
         return (value >= self._lower_value_f64) & (value <= self._upper_value_f64)
@@ -383,7 +386,18 @@ class UnitScaler(Transformer[DType]):
             # not apply generally to a log-scale vector as the non-linear scaling
             # will not give us back integer values when doing the above.
             unchecked_values = self._unsafe_to_value(vector.astype(f64))
-            return self.legal_value(unchecked_values)
+            rints = np.rint(unchecked_values)
+            # Rounding errors are relative to the bounds, not to the value itself
+            magnitude = max(abs(self._lower_value_f64), abs(self._upper_value_f64))
+            return (  # type: ignore
+                (rints >= self._lower_value_f64)
+                & (rints <= self._upper_value_f64)
+                & is_close_to_integer(
+                    unchecked_values,
+                    atol=ATOL + RTOL * magnitude,
+                    rtol=0,
+                )
+            )
 
         return (vector >= self.lower_vectorized) & (vector <= self.upper_vectorized)
 
@@ -397,7 +411,7 @@ class UnitScaler(Transformer[DType]):
             return bool(
                 (self._lower_value_f64 <= rint)
                 & (rint <= self._upper_value_f64)
-                & is_close_to_integer_single(value, atol=ATOL),
+                & is_close_to_integer_single(value, atol=ATOL, rtol=RTOL),
             )
 
         return bool(self._lower_value_f64 <= value <= self._upper_value_f64)
@@ -410,7 +424,9 @@ class UnitScaler(Transformer[DType]):
         if not self.log:
             inbounds = bool(self.lower_vectorized <= vector <= self.upper_vectorized)
             scaled = vector * self._size
-            return bool(is_close_to_integer_single(scaled, atol=ATOL) and inbounds)
+            return bool(
+                is_close_to_integer_single(scaled, atol=ATOL, rtol=RTOL) and inbounds,
+            )
 
         value = self._unsafe_to_value_single(vector)  # type: ignore
         return self.legal_value_single(value)
-- 
2.43.0


From 7dbd3fdd8b9edf739608d0aec9a9fb4cc2c93f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:42 +0000
Subject: [PATCH 27/66] fix: serialize the meta data of a space

The meta data of hyperparameters was kept but that of the space was lost
when writing and reading a space.
---
 src/ConfigSpace/configuration_space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index e593201..e575675 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -982,6 +982,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
         return {
             "name": self.name,
+            **({"meta": self.meta} if self.meta is not None else {}),
             "hyperparameters": [enc(hp, enc) for hp in self.values()],
             "conditions": [enc(c, enc) for c in self.conditions],
             "forbiddens": [enc(f, enc) for f in self.forbidden_clauses],
@@ -1044,7 +1045,7 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
 
             return dec
 
-        space = ConfigurationSpace(name=d.get("name"))
+        space = ConfigurationSpace(name=d.get("name"), meta=d.get("meta"))
         _hyperparameters = d.get("hyperparameters", [])
         _conditions = d.get("conditions", [])
         _forbiddens = d.get("forbiddens", [])
-- 
2.43.0


From 0c1a7b1e617d1706f83be7af641ef1f95f6cabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:42 +0000
Subject: [PATCH 28/66] fix: respect the step size in arange_chunked

The chunks were placed as if the step size was one.
---
 src/ConfigSpace/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/functional.py b/src/ConfigSpace/functional.py
index 02d6438..783c760 100644
--- a/src/ConfigSpace/functional.py
+++ b/src/ConfigSpace/functional.py
@@ -74,8 +74,8 @@ def arange_chunked(
     n_chunks = int(np.ceil(n_items / chunk_size))
 
     for chunk in range(n_chunks):
-        chunk_start = start + (chunk * chunk_size)
-        chunk_stop = min(chunk_start + chunk_size, stop)
+        chunk_start = start + (chunk * chunk_size * step)
+        chunk_stop = min(chunk_start + chunk_size * step, stop)
         yield np.arange(chunk_start, chunk_stop, step)
 
 
-- 
2.43.0


From ec238df0bc2006e691d0475fe946cd341ac55913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:54 +0000
Subject: [PATCH 29/66] fix: no duplicate grid points for integers

Several of the evenly spaced points may be rounded to the same integer,
such that the same configuration was generated more than once.
---
 src/ConfigSpace/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index 222a9c4..f2f3b72 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -711,7 +711,7 @@ def generate_grid(
 
             if param.log:
                 grid_points = np.exp(grid_points)
-            grid_points = np.round(grid_points).astype(int)
+            grid_points = np.unique(np.round(grid_points).astype(int))
 
             # Avoiding rounding off issues
             if grid_points[0] < param.lower:
-- 
2.43.0


From 18c92f66ba6bdf8216cb66ca12d34c461e52dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:21 +0000
Subject: [PATCH 30/66] fix: report an unknown hyperparameter with an empty
 name

The empty name is falsy, such that its value was silently ignored.
---
 src/ConfigSpace/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index a001991..ecaa1eb 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -96,7 +96,7 @@ class Configuration(Mapping[str, Any]):
 
         if values is not None:
             unknown_keys = values.keys() - self.config_space.keys()
-            if any(unknown_keys):
+            if len(unknown_keys) > 0:
                 raise ValueError(f"Unknown hyperparameter(s) {unknown_keys}")
 
             # Using cs._hyperparameters to iterate makes sure that the hyperparameters
-- 
2.43.0


From 01f420c048bab871641c17b13b65d1dc805d5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:24 +0000
Subject: [PATCH 31/66] fix: keep the types of choices given as a list

Numpy converts a list of strings and numbers to strings only, which are not
among the choices.
---
 src/ConfigSpace/hyperparameters/categorical.py | 4 ++--
 src/ConfigSpace/hyperparameters/ordinal.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index b95e759..11502aa 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -349,7 +349,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -374,7 +374,7 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index b060925..a422c5a 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -194,7 +194,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
@@ -219,7 +219,7 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
-- 
2.43.0


From 78c06be2efab836db0cea84c42aebb3eebad15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:59 +0000
Subject: [PATCH 32/66] fix: find enough neighbors of integers

Asking for a few neighbors of an integer with a small range raised a
ValueError if, by chance, none of the samples hit another value. This also
made get_random_neighbor and get_one_exchange_neighbourhood fail at random.
---
 src/ConfigSpace/hyperparameters/distributions.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 4b821f5..da91036 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -190,6 +190,20 @@ def quantized_neighborhood(
             # Ensure we don't include the initial value point
             return neighbors[1 : n + 1]
 
+    # With few samples we might not hit enough of the bins, even though they exist.
+    # Fill up with the ones we did not find.
+    if n_available < 1000000:
+        available = quantized_neighborhood(
+            vector,
+            n_available,
+            lower=lower,
+            upper=upper,
+            bins=bins,
+        )
+        missing = np.setdiff1d(available, neighbors[:offset])
+        seed.shuffle(missing)
+        return np.concatenate((neighbors[1:offset], missing))[:n]  # type: ignore
+
     raise ValueError(
         f"Failed to find enough neighbors with {n_retries} retries."
         f" Given {n=} neighbors to generate, we only found {offset - 1}."
-- 
2.43.0


From c2cba77a135c30a2524feaed7a5b418ceecb9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:55 +0000
Subject: [PATCH 33/66] fix: compare ordinals of sequences with different
 lengths

---
 src/ConfigSpace/hyperparameters/hp_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 0dff3f1..570901e 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -166,6 +166,10 @@ class TransformerSeq(Transformer[Any]):
         if not isinstance(value, TransformerSeq):
             return False
 
+        # NOTE: Lists contain sequences, which may not be of the same length
+        if isinstance(self.seq, list) and isinstance(value.seq, list):
+            return self.seq == value.seq
+
         return (
             np.array_equal(self.seq, value.seq)
             and self.lower_vectorized == value.lower_vectorized
-- 
2.43.0


From 2d29cfc08fc11d8a6e3b76df8ff66e8044a23de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:07 +0000
Subject: [PATCH 34/66] fix: report illegal vector values of inactive
 hyperparameters

---
 src/ConfigSpace/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfigSpace/util.py b/src/ConfigSpace/util.py
index f2f3b72..953a282 100644
--- a/src/ConfigSpace/util.py
+++ b/src/ConfigSpace/util.py
@@ -585,6 +585,9 @@ def check_configuration(  # noqa: D103
                 idx = children_idxs[active_mask][0]
                 hp_name = space.at[idx]
                 hp = space[hp_name]
+                if not hp._transformer.legal_vector_single(vector[idx]):
+                    raise IllegalVectorizedValueError(hp, vector[idx])
+
                 raise InactiveHyperparameterSetError(hp, hp.to_value(vector[idx]))
 
         else:
-- 
2.43.0


From 99f37a2b2b2db648938d77bc5308fd692b774549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:45 +0000
Subject: [PATCH 35/66] fix: do not change large floats when rounding them

---
 src/ConfigSpace/configuration.py                 |  4 ++--
 src/ConfigSpace/hyperparameters/beta_float.py    | 10 +++++-----
 src/ConfigSpace/hyperparameters/normal_float.py  | 10 +++++-----
 src/ConfigSpace/hyperparameters/uniform_float.py | 10 +++++-----
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/ConfigSpace/configuration.py b/src/ConfigSpace/configuration.py
index ecaa1eb..9c7862a 100644
--- a/src/ConfigSpace/configuration.py
+++ b/src/ConfigSpace/configuration.py
@@ -118,7 +118,7 @@ class Configuration(Mapping[str, Any]):
 
                 # Truncate the float to be of constant lengt
                 if isinstance(hp, FloatHyperparameter):
-                    value = float(np.round(value, ROUND_PLACES))  # type: ignore
+                    value = round(float(value), ROUND_PLACES)  # type: ignore
 
                 self._values[key] = value
                 self._vector[i] = hp.to_vector(value)  # type: ignore
@@ -231,7 +231,7 @@ class Configuration(Mapping[str, Any]):
 
         # Truncate float to be of constant length for a python version
         if isinstance(hyperparameter, FloatHyperparameter):
-            value = float(np.round(value, ROUND_PLACES))  # type: ignore
+            value = round(float(value), ROUND_PLACES)  # type: ignore
 
         if self._values is None:
             self._values = {}
diff --git a/src/ConfigSpace/hyperparameters/beta_float.py b/src/ConfigSpace/hyperparameters/beta_float.py
index fc1051b..74629be 100644
--- a/src/ConfigSpace/hyperparameters/beta_float.py
+++ b/src/ConfigSpace/hyperparameters/beta_float.py
@@ -108,10 +108,10 @@ class BetaFloatHyperparameter(FloatHyperparameter):
                 " 1 so that the probability density is finite.",
             )
 
-        self.alpha = float(np.round(alpha, ROUND_PLACES))
-        self.beta = float(np.round(beta, ROUND_PLACES))
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
+        self.alpha = round(float(alpha), ROUND_PLACES)
+        self.beta = round(float(beta), ROUND_PLACES)
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
         self.log = bool(log)
 
         try:
@@ -142,7 +142,7 @@ class BetaFloatHyperparameter(FloatHyperparameter):
         super().__init__(
             name=name,
             size=np.inf,
-            default_value=float(np.round(_default_value, ROUND_PLACES)),
+            default_value=round(float(_default_value), ROUND_PLACES),
             meta=meta,
             transformer=scaler,
             vector_dist=vector_dist,
diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 13e8675..03e50c6 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -102,10 +102,10 @@ class NormalFloatHyperparameter(FloatHyperparameter):
                 f"mu={mu} must be positive for log-scale.",
             )
 
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
-        self.mu = float(np.round(mu, ROUND_PLACES))
-        self.sigma = float(np.round(sigma, ROUND_PLACES))
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
+        self.mu = round(float(mu), ROUND_PLACES)
+        self.sigma = round(float(sigma), ROUND_PLACES)
         self.log = bool(log)
 
         try:
@@ -118,7 +118,7 @@ class NormalFloatHyperparameter(FloatHyperparameter):
         else:
             _default_value = default_value
 
-        _default_value = float(np.round(_default_value, ROUND_PLACES))
+        _default_value = round(float(_default_value), ROUND_PLACES)
 
         vectorized_mu = scaler.to_vector(np.array([self.mu]))[0]
         vectorized_sigma = scaler.vectorize_size(f64(self.sigma))
diff --git a/src/ConfigSpace/hyperparameters/uniform_float.py b/src/ConfigSpace/hyperparameters/uniform_float.py
index 24b5a78..a2ad4a4 100644
--- a/src/ConfigSpace/hyperparameters/uniform_float.py
+++ b/src/ConfigSpace/hyperparameters/uniform_float.py
@@ -90,8 +90,8 @@ class UniformFloatHyperparameter(FloatHyperparameter):
                 Field for holding meta data provided by the user. Not used by
                 ConfigSpace.
         """
-        self.lower = float(np.round(lower, ROUND_PLACES))
-        self.upper = float(np.round(upper, ROUND_PLACES))
+        self.lower = round(float(lower), ROUND_PLACES)
+        self.upper = round(float(upper), ROUND_PLACES)
         self.log = log
 
         try:
@@ -105,13 +105,13 @@ class UniformFloatHyperparameter(FloatHyperparameter):
         super().__init__(
             name=name,
             size=np.inf,
-            default_value=float(
-                np.round(
+            default_value=round(
+                float(
                     default_value
                     if default_value is not None
                     else scaler.to_value(np.array([0.5]))[0],
-                    ROUND_PLACES,
                 ),
+                ROUND_PLACES,
             ),
             meta=meta,
             transformer=scaler,
-- 
2.43.0


From 741bab6b82533151549f84afe32886918df1942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:04 +0000
Subject: [PATCH 36/66] fix: parse forbidden pcs values starting with a digit

---
 src/ConfigSpace/read_and_write/pcs.py     | 2 +-
 src/ConfigSpace/read_and_write/pcs_new.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 8f357c3..68df87a 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -86,7 +86,7 @@ pp_eorE = pyparsing.Literal("e") | pyparsing.Literal("E")
 pp_floatorint = pp_float | pp_int
 pp_e_notation = pyparsing.Combine(pp_floatorint + pp_eorE + pp_int)
 pp_number = pp_e_notation | pp_float | pp_int
-pp_numberorname = pp_number | pp_param_name
+pp_numberorname = pp_param_name | pp_number
 pp_il = pyparsing.Word("il")
 pp_choices = pp_param_name + pyparsing.Optional(
     pyparsing.OneOrMore("," + pp_param_name),
diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 318f90d..b7d05c8 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -116,7 +116,7 @@ pp_param_type = (
 pp_floatorint = pp_float | pp_int
 pp_e_notation = pyparsing.Combine(pp_floatorint + pp_eorE + pp_int)
 pp_number = pp_e_notation | pp_float | pp_int
-pp_numberorname = pp_number | pp_param_name
+pp_numberorname = pp_param_name | pp_number
 pp_log = pyparsing.Literal("log")
 # A word matches each character as a set. So && is processed as &
 # https://pythonhosted.org/pyparsing/pyparsing.Word-class.html
-- 
2.43.0


From 18d43e0e2fee07845e38167e5044796c6333abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:15 +0000
Subject: [PATCH 37/66] fix: write membership conditions on non-string choices
 to pcs

---
 src/ConfigSpace/read_and_write/pcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 68df87a..5fad417 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -190,7 +190,7 @@ def build_condition(condition: Condition | Conjunction) -> str:
         return condition_template % (
             condition.child.name,
             condition.parent.name,
-            ", ".join(condition.values),
+            ", ".join([str(value) for value in condition.values]),
         )
 
     if isinstance(condition, EqualsCondition):
-- 
2.43.0


From 1cf6dcc72256a8cf513894076ed9029ac1178fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:26 +0000
Subject: [PATCH 38/66] fix: add forbidden clauses of pcs files after
 conditions

---
 src/ConfigSpace/read_and_write/pcs_new.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index b7d05c8..2df001d 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -632,8 +632,6 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 tmp_list = []
         forbidden_to_add.append(ForbiddenAndConjunction(*clause_list))
 
-    configuration_space.add(forbidden_to_add)
-
     conditions_per_child: dict = OrderedDict()
 
     for condition in conditions:
@@ -721,7 +719,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 conditions_to_add.append(normal_condition)
 
-    configuration_space.add(conditions_to_add)
+    configuration_space.add(conditions_to_add, forbidden_to_add)
 
     return configuration_space
 
-- 
2.43.0


From 084692a5c4b28d3b2b8a255d81636d30a636eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:37 +0000
Subject: [PATCH 39/66] fix: read membership conditions in mixed pcs
 conjunctions

---
 src/ConfigSpace/read_and_write/pcs_new.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 2df001d..909f12a 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -665,11 +665,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                             # now taking care of ands
                             ands = []
                             for and_part in condition:
-                                element_list = [
-                                    element
-                                    for _ in condition
-                                    for element in and_part.split()
-                                ]
+                                element_list = and_part.split()
                                 ands.append(
                                     condition_specification(
                                         child_name,
-- 
2.43.0


From 2b40d7c5c3b97d8002b08be7d658a4c3eef586d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:48 +0000
Subject: [PATCH 40/66] fix: read forbidden values of numerical hyperparameters
 from pcs

---
 src/ConfigSpace/read_and_write/pcs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 5fad417..1f72398 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -375,12 +375,14 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 if tmp_list[1] == "=":
                     # TODO maybe add a check if the hyperparameter is
                     # actually in the configuration space
-                    clause_list.append(
-                        ForbiddenEqualsClause(
-                            configuration_space[tmp_list[0]],
-                            tmp_list[2],
-                        ),
-                    )
+                    hp = configuration_space[tmp_list[0]]
+                    forbidden_value = tmp_list[2]
+                    if isinstance(hp, IntegerHyperparameter):
+                        forbidden_value = int(forbidden_value)
+                    elif isinstance(hp, NumericalHyperparameter):
+                        forbidden_value = float(forbidden_value)
+
+                    clause_list.append(ForbiddenEqualsClause(hp, forbidden_value))
                 else:
                     raise NotImplementedError()
                 tmp_list = []
-- 
2.43.0


From 388bc943e7a5f4fd6f839a0cc743207601274acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:24 +0000
Subject: [PATCH 41/66] fix: read pcs_new types from the type field only

---
 src/ConfigSpace/read_and_write/pcs_new.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 909f12a..88d46f5 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -540,7 +540,8 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
             pass
 
         try:
-            if "categorical" in line:
+            param_type = (pp_param_name + pp_param_type).parseString(line)[1]
+            if param_type == "categorical":
                 param_list = pp_cat_param.parseString(line)
                 name = param_list[0]
                 choices = list(param_list[3:-4:2])
@@ -552,7 +553,7 @@ def read(pcs_string: Iterable[str]) -> ConfigurationSpace:
                 )
                 cat_ct += 1
 
-            elif "ordinal" in line:
+            elif param_type == "ordinal":
                 param_list = pp_ord_param.parseString(line)
                 name = param_list[0]
                 sequence = list(param_list[3:-4:2])
-- 
2.43.0


From 65bb4d27948cccf2813408c6b91073b0fcdbbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:35 +0000
Subject: [PATCH 42/66] fix: refuse names and values which pcs can not express

---
 src/ConfigSpace/read_and_write/pcs.py     | 16 +++++++++++++++-
 src/ConfigSpace/read_and_write/pcs_new.py | 17 ++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/read_and_write/pcs.py b/src/ConfigSpace/read_and_write/pcs.py
index 1f72398..cef519e 100644
--- a/src/ConfigSpace/read_and_write/pcs.py
+++ b/src/ConfigSpace/read_and_write/pcs.py
@@ -15,6 +15,7 @@ from collections import OrderedDict
 from collections.abc import Iterable
 from io import StringIO
 from itertools import product
+from typing import Any
 from typing_extensions import deprecated
 
 import pyparsing
@@ -118,12 +119,24 @@ pp_forbidden_clause = (
 )
 
 
+def check_values(name: str, values: Iterable[Any]) -> None:
+    for value in values:
+        try:
+            pp_param_name.parseString(str(value), parseAll=True)
+        except pyparsing.ParseException as e:
+            raise ValueError(
+                f"The pcs format does not support the value {value!r}"
+                f" (for hyperparameter {name})",
+            ) from e
+
+
 def build_categorical(param: CategoricalHyperparameter) -> str:
     if param.weights is not None:
         raise ValueError(
             "The pcs format does not support categorical hyperparameters with "
             f"assigned weights (for hyperparameter {param.name})",
         )
+    check_values(param.name, param.choices)
     cat_template = "%s {%s} [%s]"
     return cat_template % (
         param.name,
@@ -133,6 +146,7 @@ def build_categorical(param: CategoricalHyperparameter) -> str:
 
 
 def build_constant(param: Constant) -> str:
+    check_values(param.name, [param.value])
     constant_template = "%s {%s} [%s]"
     return constant_template % (param.name, param.value, param.value)
 
@@ -466,7 +480,7 @@ def write(configuration_space: ConfigurationSpace) -> str:
     for hyperparameter in configuration_space.values():
         # Check if the hyperparameter names are valid ConfigSpace names!
         try:
-            pp_param_name.parseString(hyperparameter.name)
+            pp_param_name.parseString(hyperparameter.name, parseAll=True)
         except pyparsing.ParseException as e:
             raise ValueError(
                 f"Illegal hyperparameter name for ConfigSpace: {hyperparameter.name}",
diff --git a/src/ConfigSpace/read_and_write/pcs_new.py b/src/ConfigSpace/read_and_write/pcs_new.py
index 88d46f5..dfaaae5 100644
--- a/src/ConfigSpace/read_and_write/pcs_new.py
+++ b/src/ConfigSpace/read_and_write/pcs_new.py
@@ -32,6 +32,7 @@ from collections import OrderedDict
 from collections.abc import Iterable
 from io import StringIO
 from itertools import product
+from typing import Any
 from typing_extensions import deprecated
 
 import pyparsing
@@ -178,12 +179,24 @@ pp_forbidden_clause = (
 )
 
 
+def check_values(name: str, values: Iterable[Any]) -> None:
+    for value in values:
+        try:
+            pp_param_name.parseString(str(value), parseAll=True)
+        except pyparsing.ParseException as e:
+            raise ValueError(
+                f"The pcs format does not support the value {value!r}"
+                f" (for hyperparameter {name})",
+            ) from e
+
+
 def build_categorical(param: CategoricalHyperparameter) -> str:
     if param.weights is not None:
         raise ValueError(
             "The pcs format does not support categorical hyperparameters with "
             f"assigned weights (for hyperparameter {param.name})",
         )
+    check_values(param.name, param.choices)
     cat_template = "%s categorical {%s} [%s]"
     return cat_template % (
         param.name,
@@ -193,6 +206,7 @@ def build_categorical(param: CategoricalHyperparameter) -> str:
 
 
 def build_ordinal(param: OrdinalHyperparameter) -> str:
+    check_values(param.name, param.sequence)
     ordinal_template = "%s ordinal {%s} [%s]"
     return ordinal_template % (
         param.name,
@@ -202,6 +216,7 @@ def build_ordinal(param: OrdinalHyperparameter) -> str:
 
 
 def build_constant(param: Constant) -> str:
+    check_values(param.name, [param.value])
     const_template = "%s categorical {%s} [%s]"
     return const_template % (param.name, param.value, param.value)
 
@@ -757,7 +772,7 @@ def write(configuration_space: ConfigurationSpace) -> str:
     for hyperparameter in configuration_space.values():
         # Check if the hyperparameter names are valid ConfigSpace names!
         try:
-            pp_param_name.parseString(hyperparameter.name)
+            pp_param_name.parseString(hyperparameter.name, parseAll=True)
         except pyparsing.ParseException as e:
             raise ValueError(
                 f"Illegal hyperparameter name for ConfigSpace: {hyperparameter.name}",
-- 
2.43.0


From 3fa6e36aa453ffb9262af3708261c7c265fc4d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:39 +0000
Subject: [PATCH 43/66] fix: refuse the same unhashable choice given twice

---
 src/ConfigSpace/hyperparameters/categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 11502aa..91c0f84 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from collections import Counter
 from collections.abc import Hashable, Mapping, Sequence
 from dataclasses import dataclass, field
-from itertools import product
+from itertools import combinations
 from typing import TYPE_CHECKING, Any, ClassVar, Set
 from typing_extensions import deprecated, override
 
@@ -177,8 +177,8 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                         " occurence is allowed.",
                     )
         except TypeError:
-            for a, b in product(choices, choices):
-                if a is not b and a == b:
+            for a, b in combinations(choices, 2):
+                if a is b or a == b:
                     raise ValueError(  # noqa: B904
                         f"Choices for categorical hyperparameters {name} contain"
                         f" choice `{a}` multiple times, while only a single occurence"
-- 
2.43.0


From 169192962670adbcbf582ea773669cb700d3be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:50 +0000
Subject: [PATCH 44/66] fix: refuse weights which are not finite

---
 src/ConfigSpace/hyperparameters/categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 91c0f84..0833ab4 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -207,6 +207,10 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
                     "All weights are zero, at least one weight has to be strictly"
                     " positive.",
                 )
+            if not all(np.isfinite(weight) for weight in weights):
+                raise ValueError(
+                    f"All weights have to be finite. Got {weights}.",
+                )
             tupled_weights = tuple(weights)
         elif weights is not None:
             raise TypeError(
-- 
2.43.0


From ae23ceeccbff06b8cf6047d61726959e2514066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:02 +0000
Subject: [PATCH 45/66] fix: refuse normal hyperparameters without a positive
 sigma

---
 src/ConfigSpace/hyperparameters/normal_float.py   | 6 ++++++
 src/ConfigSpace/hyperparameters/normal_integer.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/normal_float.py b/src/ConfigSpace/hyperparameters/normal_float.py
index 03e50c6..d3982eb 100644
--- a/src/ConfigSpace/hyperparameters/normal_float.py
+++ b/src/ConfigSpace/hyperparameters/normal_float.py
@@ -96,6 +96,12 @@ class NormalFloatHyperparameter(FloatHyperparameter):
             meta:
                 Field for meta data provided by the user. Not used by ConfigSpace.
         """
+        if not sigma > 0:
+            raise ValueError(
+                f"Hyperparameter '{name}' has illegal settings: "
+                f"sigma={sigma} must be positive.",
+            )
+
         if mu <= 0 and log:
             raise ValueError(
                 f"Hyperparameter '{name}' has illegal settings: "
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index abb1cd2..46e68f7 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -99,6 +99,12 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
                 Field for holding meta data provided by the user. Not used by
                 ConfigSpace.
         """
+        if not sigma > 0:
+            raise ValueError(
+                f"Hyperparameter '{name}' has illegal settings: "
+                f"sigma={sigma} must be positive.",
+            )
+
         if mu <= 0 and log:
             raise ValueError(
                 f"Hyperparameter '{name}' has illegal settings: "
-- 
2.43.0


From e424b37c476c3d779d2571a3758527d6d96955bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:26 +0000
Subject: [PATCH 46/66] fix: refuse bounds which are not finite

---
 src/ConfigSpace/hyperparameters/hp_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 570901e..632aad7 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -303,6 +303,11 @@ class UnitScaler(Transformer[DType]):
         self._upper_value_f64 = f64(self.upper_value)
         self._size = self._upper_value_f64 - self._lower_value_f64
 
+        if not np.isfinite(self._size):
+            raise ValueError(
+                f"The range [{self.lower_value}, {self.upper_value}] must be finite",
+            )
+
     @override
     def to_value(self, vector: Array[f64]) -> Array[DType]:
         """Transform a value from the unit interval to the range."""
-- 
2.43.0


From 419536601f6611b5f3973c7f6a805aa792bcbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:01 +0000
Subject: [PATCH 47/66] fix: refuse fractions as default of large integers

---
 src/ConfigSpace/hyperparameters/beta_integer.py    | 4 ++--
 src/ConfigSpace/hyperparameters/normal_integer.py  | 4 ++--
 src/ConfigSpace/hyperparameters/uniform_integer.py | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/beta_integer.py b/src/ConfigSpace/hyperparameters/beta_integer.py
index 8f907c4..a59b964 100644
--- a/src/ConfigSpace/hyperparameters/beta_integer.py
+++ b/src/ConfigSpace/hyperparameters/beta_integer.py
@@ -11,7 +11,7 @@ from ConfigSpace.functional import is_close_to_integer_single
 from ConfigSpace.hyperparameters.distributions import (
     DiscretizedContinuousScipyDistribution,
 )
-from ConfigSpace.hyperparameters.hp_components import ATOL, UnitScaler
+from ConfigSpace.hyperparameters.hp_components import ATOL, RTOL, UnitScaler
 from ConfigSpace.hyperparameters.integer_hyperparameter import IntegerHyperparameter
 from ConfigSpace.types import f64, i64
 
@@ -131,7 +131,7 @@ class BetaIntegerHyperparameter(IntegerHyperparameter):
                 scaler.to_value(np.array([vectorized_mode]))[0],
             ).astype(i64)
         else:
-            if not is_close_to_integer_single(default_value, atol=ATOL):
+            if not is_close_to_integer_single(default_value, atol=ATOL, rtol=RTOL):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/normal_integer.py b/src/ConfigSpace/hyperparameters/normal_integer.py
index 46e68f7..61345d1 100644
--- a/src/ConfigSpace/hyperparameters/normal_integer.py
+++ b/src/ConfigSpace/hyperparameters/normal_integer.py
@@ -11,7 +11,7 @@ from ConfigSpace.functional import is_close_to_integer
 from ConfigSpace.hyperparameters.distributions import (
     DiscretizedContinuousScipyDistribution,
 )
-from ConfigSpace.hyperparameters.hp_components import ATOL, UnitScaler
+from ConfigSpace.hyperparameters.hp_components import ATOL, RTOL, UnitScaler
 from ConfigSpace.hyperparameters.hyperparameter import IntegerHyperparameter
 from ConfigSpace.types import Number, f64, i64
 
@@ -130,7 +130,7 @@ class NormalIntegerHyperparameter(IntegerHyperparameter):
         if default_value is None:
             _default_value = int(np.rint(np.clip(self.mu, self.lower, self.upper)))
         else:
-            if not is_close_to_integer(f64(default_value), atol=ATOL):
+            if not is_close_to_integer(f64(default_value), atol=ATOL, rtol=RTOL):
                 raise TypeError(
                     f"`default_value` for hyperparameter '{name}' must be an integer."
                     f" Got '{type(default_value).__name__}' for {default_value=}.",
diff --git a/src/ConfigSpace/hyperparameters/uniform_integer.py b/src/ConfigSpace/hyperparameters/uniform_integer.py
index 3e45406..29f90e0 100644
--- a/src/ConfigSpace/hyperparameters/uniform_integer.py
+++ b/src/ConfigSpace/hyperparameters/uniform_integer.py
@@ -12,7 +12,7 @@ from ConfigSpace.hyperparameters.distributions import (
     DiscretizedContinuousScipyDistribution,
     UniformIntegerNormalizedDistribution,
 )
-from ConfigSpace.hyperparameters.hp_components import ATOL, UnitScaler
+from ConfigSpace.hyperparameters.hp_components import ATOL, RTOL, UnitScaler
 from ConfigSpace.hyperparameters.integer_hyperparameter import IntegerHyperparameter
 from ConfigSpace.types import Number, f64, i64
 
@@ -101,6 +101,7 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
         if default_value is not None and not is_close_to_integer(
             f64(default_value),
             atol=ATOL,
+            rtol=RTOL,
         ):
             raise TypeError(
                 f"`default_value` for hyperparameter '{name}' must be an integer."
-- 
2.43.0


From 81ee1979c5e93f0f416a9d1466382e27f53695b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:09 +0000
Subject: [PATCH 48/66] fix: round the default of uniform integers instead of
 truncating it

---
 src/ConfigSpace/hyperparameters/uniform_integer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/uniform_integer.py b/src/ConfigSpace/hyperparameters/uniform_integer.py
index 29f90e0..1002a76 100644
--- a/src/ConfigSpace/hyperparameters/uniform_integer.py
+++ b/src/ConfigSpace/hyperparameters/uniform_integer.py
@@ -134,6 +134,8 @@ class UniformIntegerHyperparameter(IntegerHyperparameter):
             default_value=(
                 int(
                     default_value
+                    if isinstance(default_value, (int, np.integer))
+                    else np.rint(f64(default_value))
                     if default_value is not None
                     else np.rint(scaler.to_value(np.array([0.5]))[0]),
                 )
-- 
2.43.0


From 904089b9067d51ac146e7356ee6b07618241d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:03 +0000
Subject: [PATCH 49/66] fix: keep the types of choices of different types

---
 src/ConfigSpace/hyperparameters/categorical.py | 10 ++++------
 src/ConfigSpace/hyperparameters/ordinal.py     | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 0833ab4..78bc2c8 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -259,12 +259,10 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
             if seq_choices.ndim != 1:
                 raise ValueError
 
-            # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(choice, str) for choice in choices
-            ):
+            # NOTE: Unfortunatly, numpy will promote all items to a common type,
+            # i.e. numbers to str if there are string types in the array or
+            # integers to floats, where we'd rather stick to object type.
+            if len({type(choice) for choice in choices}) > 1:
                 seq_choices = np.array(choices, dtype=object)
 
         except ValueError:
diff --git a/src/ConfigSpace/hyperparameters/ordinal.py b/src/ConfigSpace/hyperparameters/ordinal.py
index a422c5a..2c9985e 100644
--- a/src/ConfigSpace/hyperparameters/ordinal.py
+++ b/src/ConfigSpace/hyperparameters/ordinal.py
@@ -97,12 +97,10 @@ class OrdinalHyperparameter(Hyperparameter[Any, Any]):
             if seq_choices.ndim != 1:
                 raise ValueError
 
-            # NOTE: Unfortunatly, numpy will promote number types to str
-            # if there are string types in the array, where we'd rather
-            # stick to object type in that case. Hence the manual...
-            if seq_choices.dtype.kind in {"U", "S"} and not all(
-                isinstance(item, str) for item in sequence
-            ):
+            # NOTE: Unfortunatly, numpy will promote all items to a common type,
+            # i.e. numbers to str if there are string types in the array or
+            # integers to floats, where we'd rather stick to object type.
+            if len({type(item) for item in sequence}) > 1:
                 seq_choices = np.array(sequence, dtype=object)
 
         except ValueError:
-- 
2.43.0


From 85c5c74de093c6fb2848f10b3cef45759441198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:53 +0000
Subject: [PATCH 50/66] fix: unpickled hyperparameters equal their source

---
 src/ConfigSpace/hyperparameters/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index da91036..0fb8bbe 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -57,7 +57,9 @@ def _compare_rv(a: Any, b: Any) -> bool:
     bdict = b.__dict__
     for key in adict:
         if key == "dist":
-            if adict[key]._ctor_param != bdict[key]._ctor_param:
+            # The "badvalue" is NaN, which is not equal to itself once unpickled
+            params = [{**d[key]._ctor_param, "badvalue": None} for d in (adict, bdict)]
+            if params[0] != params[1]:
                 return False
 
         elif adict[key] != bdict[key]:
-- 
2.43.0


From 89535e9d3dfde82573c7f1bb87ce984bd6529bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:52 +0000
Subject: [PATCH 51/66] fix: numbers as choices next to lists

---
 src/ConfigSpace/hyperparameters/hp_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 632aad7..7901bf5 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -206,7 +206,8 @@ class TransformerSeq(Transformer[Any]):
         if isinstance(self.seq, np.ndarray):
             return np.flatnonzero(np.isin(self.seq, value)).astype(f64)
 
-        return np.array([self.seq.index(v) for v in value], dtype=f64)
+        # NOTE: numpy scalars can't be compared to the sequences in `seq`
+        return np.array([self.seq.index(v) for v in value.tolist()], dtype=f64)
 
     @override
     def legal_value(self, value: Array[Any]) -> Mask:
@@ -216,7 +217,7 @@ class TransformerSeq(Transformer[Any]):
         if isinstance(self.seq, np.ndarray):
             return np.isin(value, self.seq)
 
-        return np.array([v in self.seq for v in value], dtype=np.bool_)
+        return np.array([v in self.seq for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
-- 
2.43.0


From b2561e4ac8a339b5352608121f86e3219753baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:55 +0000
Subject: [PATCH 52/66] fix: equality of reordered categoricals with weights

---
 src/ConfigSpace/hyperparameters/categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 78bc2c8..6df12bc 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -321,7 +321,8 @@ class CategoricalHyperparameter(Hyperparameter[Any, Any]):
 
             index_of_choice_in_other = other.choices.index(this_choice)
             other_prob = other.probabilities[index_of_choice_in_other]
-            if this_prob != other_prob:
+            # Summing up the weights in another order may differ by rounding
+            if not np.isclose(this_prob, other_prob, rtol=1e-12, atol=0):
                 return False
 
         return True
-- 
2.43.0


From 0880ad0b4142ddf50c99fdb539f1fbbbe020bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:22 +0000
Subject: [PATCH 53/66] fix: Treat a range shorthand with one real bound as a
 real range

---
 src/ConfigSpace/configuration_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index e575675..b7838b6 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -99,7 +99,7 @@ def _parse_hyperparameters_from_dict(
                 raise ValueError(f"'{name}' must be (lower, upper) bound, got {hp}")
 
             lower, upper = hp
-            if isinstance(lower, float):
+            if isinstance(lower, float) or isinstance(upper, float):
                 yield UniformFloatHyperparameter(name, lower, upper)
             else:
                 yield UniformIntegerHyperparameter(name, lower, upper)
-- 
2.43.0


From ce4d639d4b74dae7ea6ccf98b781e89e2878d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:06 +0000
Subject: [PATCH 54/66] fix: Density of choice encodings next to an integer

---
 src/ConfigSpace/hyperparameters/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 0fb8bbe..8ac8250 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1195,7 +1195,8 @@ class WeightedIntegerDiscreteDistribution(Distribution):
 
         # Bring it all into range to index by
         nan_filled: Array[f64] = np.nan_to_num(vector, nan=0)
-        xx: Array[i64] = np.clip(nan_filled, 0, self.size - 1).astype(np.intp)
+        clipped = np.clip(nan_filled, 0, self.size - 1)
+        xx: Array[i64] = np.rint(clipped).astype(np.intp)
         pdf = self.probabilities[xx]
         return np.where(valid_mask, pdf, 0)
 
-- 
2.43.0


From 5ec660045edd4076e9d01dcd845dc2fe61f83603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:27 +0000
Subject: [PATCH 55/66] fix: Neighbours of choice encodings next to an integer

---
 src/ConfigSpace/hyperparameters/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/categorical.py b/src/ConfigSpace/hyperparameters/categorical.py
index 6df12bc..2a76902 100644
--- a/src/ConfigSpace/hyperparameters/categorical.py
+++ b/src/ConfigSpace/hyperparameters/categorical.py
@@ -74,7 +74,7 @@ class NeighborhoodCat(Neighborhood):
         seed: np.random.RandomState | None = None,
     ) -> Array[f64]:
         seed = np.random.RandomState() if seed is None else seed
-        pivot = int(vector)
+        pivot = int(np.rint(vector))
         if self._cached_neighbors is not None:
             choices = self._cached_neighbors[pivot].copy()
             seed.shuffle(choices)
-- 
2.43.0


From 341074fdf4f3f9466e1f0a2c7d27aed45bb446fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:36 +0000
Subject: [PATCH 56/66] fix: Neighbours of ordinal encodings next to zero

---
 src/ConfigSpace/hyperparameters/hp_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 7901bf5..e2e19f0 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -480,7 +480,7 @@ def ordinal_neighborhood(
     # We have at least 2 elements,
     # in this case it's only neighbor is the one beside it
     # which is itself +1
-    if vector == 0:
+    if np.rint(vector) == 0:
         return np.array([1.0], dtype=f64)
 
     # Also only one neighbor for the other end
-- 
2.43.0


From e61a8b2c204eaab96b605e99ee3279bf2899973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:34 +0000
Subject: [PATCH 57/66] fix: list all neighbours of a quantized range that is
 not the unit interval

---
 src/ConfigSpace/hyperparameters/distributions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 8ac8250..c4be64a 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -131,17 +131,13 @@ def quantized_neighborhood(
     # neighbors, excluding the current value
     n_available = bins - 1
     if n >= n_available:
-        if qvector == 0:
-            return np.arange(1, bins) / (bins - 1)
-        if qvector == bins - 1:
-            return np.arange(0, bins - 1) / (bins - 1)
-
-        qint = i64(np.rint(vector * (bins - 1)))
+        qint = i64(np.rint((qvector - lower) / (upper - lower) * (bins - 1)))
 
         _range: Array[f64] = np.arange(0, bins, dtype=np.float64)
         bot = _range[:qint]
         top = _range[qint + 1 :]
-        return np.concatenate((bot, top)) / (bins - 1)  # type: ignore
+        unit = np.concatenate((bot, top)) / (bins - 1)
+        return unit * (upper - lower) + lower  # type: ignore
 
     # Otherwise, we use a repeated sampling strategy where we slowly increase the
     # std of a normal, centered on `center`, slowly expanding `std` such that
-- 
2.43.0


From b47592498e30e58d8a5f34a2a5296900e9e8f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:12 +0000
Subject: [PATCH 58/66] fix: fill up the neighbours of an integer that random
 candidates did not hit

---
 src/ConfigSpace/hyperparameters/distributions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index c4be64a..bf2b6cc 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1113,6 +1113,14 @@ class UniformIntegerDistribution(Distribution):
                 # Ensure we don't include the initial value point
                 return neighbors[1 : n + 1]
 
+        # With few samples we might not hit enough of the integers, even though they
+        # exist. Fill up with the ones we did not find.
+        if n_available < 1000000:
+            available = self.neighborhood(vector, n_available)
+            missing = np.setdiff1d(available, neighbors[:offset])
+            seed.shuffle(missing)
+            return np.concatenate((neighbors[1:offset], missing))[:n]
+
         raise ValueError(
             f"Failed to find enough neighbors with {n_retries} retries."
             f" Given {n=} neighbors to generate, we only found {offset - 1}."
-- 
2.43.0


From 6254cb56982a26e0697c7d2fbcd8c12d72148350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:40 +0000
Subject: [PATCH 59/66] fix: give whole numbers as neighbours of an integer
 distribution

---
 src/ConfigSpace/hyperparameters/distributions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index bf2b6cc..e9ba3c3 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -1095,10 +1095,8 @@ class UniformIntegerDistribution(Distribution):
             valid_candidates = candidates[(candidates >= lower) & (candidates <= upper)]
 
             # Transform to quantized space
-            candidates_quantized = quantize(
-                valid_candidates,
-                bounds=(lower, upper),
-                bins=steps,
+            candidates_quantized = np.rint(
+                quantize(valid_candidates, bounds=(lower, upper), bins=steps),
             )
 
             uniq = np.unique(candidates_quantized)
-- 
2.43.0


From 4787e403ad4fdbd800f444275ac187fa537cb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:02 +0000
Subject: [PATCH 60/66] fix: upper bound of the vectorized sequence

---
 src/ConfigSpace/hyperparameters/hp_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index e2e19f0..10c45c5 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -160,7 +160,7 @@ class TransformerSeq(Transformer[Any]):
             self._lookup = None
 
         self.lower_vectorized = f64(0)
-        self.upper_vectorized = f64(len(self.seq))
+        self.upper_vectorized = f64(len(self.seq) - 1)
 
     def __eq__(self, value: object, /) -> bool:
         if not isinstance(value, TransformerSeq):
-- 
2.43.0


From 281e28cd2112036a4f7f7d0a832999119ec14d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:58 +0000
Subject: [PATCH 61/66] fix: a single value has no neighbours

---
 src/ConfigSpace/hyperparameters/hyperparameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index b292ce4..dcb5517 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -565,7 +565,7 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
     @deprecated("Please use `get_num_neighbors() > 0` or `hp.size > 1` instead.")
     def has_neighbors(self) -> bool:
         """Deprecated."""
-        return self.get_num_neighbors() > 0
+        return self.size > 1
 
     @deprecated("Please use `sample_value(seed=rs)` instead.")
     def sample(self, rs: np.random.RandomState) -> ValueT:
-- 
2.43.0


From 85085573573344002e0fb54bde10164f3b8e6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:51 +0000
Subject: [PATCH 62/66] fix: compare single values to a constant that is a
 sequence

---
 src/ConfigSpace/hyperparameters/hp_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/hp_components.py b/src/ConfigSpace/hyperparameters/hp_components.py
index 10c45c5..63fe4de 100644
--- a/src/ConfigSpace/hyperparameters/hp_components.py
+++ b/src/ConfigSpace/hyperparameters/hp_components.py
@@ -536,7 +536,8 @@ class TransformerConstant(Transformer[Any]):
         if isinstance(self.value, np.ndarray):
             return np.flatnonzero(np.equal(self.value, value)).astype(f64)
 
-        return np.array([v == self.value for v in value], dtype=f64)
+        # NOTE: numpy scalars would be compared to each element of a sequence
+        return np.array([v == self.value for v in value.tolist()], dtype=f64)
 
     @override
     def to_value(self, vector: Array[f64]) -> ObjectArray:
@@ -550,7 +551,7 @@ class TransformerConstant(Transformer[Any]):
 
     @override
     def legal_value(self, value: ObjectArray) -> Mask:
-        return np.array([v == self.value for v in value], dtype=np.bool_)
+        return np.array([v == self.value for v in value.tolist()], dtype=np.bool_)
 
     @override
     def legal_vector(self, vector: Array[f64]) -> Mask:
-- 
2.43.0


From 57917b7d604995d59a7164e8adb59005782d5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:17 +0000
Subject: [PATCH 63/66] fix: legality of numbers next to strings in a list

---
 src/ConfigSpace/hyperparameters/constant.py       | 4 ++--
 src/ConfigSpace/hyperparameters/hyperparameter.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ConfigSpace/hyperparameters/constant.py b/src/ConfigSpace/hyperparameters/constant.py
index 8468323..914ab3e 100644
--- a/src/ConfigSpace/hyperparameters/constant.py
+++ b/src/ConfigSpace/hyperparameters/constant.py
@@ -124,7 +124,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.legal_value(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.legal_value(np.asarray(value))
+            return self._transformer.legal_value(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.legal_value(np.array([value]))[0]
@@ -169,7 +169,7 @@ class Constant(Hyperparameter[Any, Any]):
                 return self._transformer.to_vector(_v)[0]
 
             # A sequence of things containing different values
-            return self._transformer.to_vector(np.asarray(value))
+            return self._transformer.to_vector(np.asarray(value, dtype=object))
 
         # Single value that is not a sequence
         return self._transformer.to_vector(np.array([value]))[0]
diff --git a/src/ConfigSpace/hyperparameters/hyperparameter.py b/src/ConfigSpace/hyperparameters/hyperparameter.py
index dcb5517..9e45b3c 100644
--- a/src/ConfigSpace/hyperparameters/hyperparameter.py
+++ b/src/ConfigSpace/hyperparameters/hyperparameter.py
@@ -283,7 +283,11 @@ class Hyperparameter(ABC, Generic[ValueT, DType]):
             return self._transformer.legal_value(value)
 
         if isinstance(value, Sequence) and not isinstance(value, str):
-            return self._transformer.legal_value(np.asarray(value))
+            array = np.asarray(value)
+            if array.dtype.kind in "US":
+                # Numbers next to strings would have been turned into strings
+                array = np.asarray(value, dtype=object)
+            return self._transformer.legal_value(array)
 
         return self._transformer.legal_value_single(value)  # type: ignore
 
-- 
2.43.0


From 59020510b0284f4aeb47d8c90ffcb15cbf13ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:15 +0000
Subject: [PATCH 64/66] fix: keep the space unchanged when an addition is
 refused

---
 src/ConfigSpace/configuration_space.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ConfigSpace/configuration_space.py b/src/ConfigSpace/configuration_space.py
index b7838b6..c044e5d 100644
--- a/src/ConfigSpace/configuration_space.py
+++ b/src/ConfigSpace/configuration_space.py
@@ -337,6 +337,22 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
         for a in args:
             _put_to_list(a)
 
+        previous = [*self.values()], [*self.conditions], [*self.forbidden_clauses]
+        try:
+            self._insert(hps, conditions, forbiddens)
+            self._check_default_configuration()
+        except Exception:
+            # Do not keep a partial or refused addition
+            self._dag = DAG()
+            self._insert(*previous)
+            raise
+
+    def _insert(
+        self,
+        hps: Iterable[Hyperparameter],
+        conditions: Iterable[ConditionLike],
+        forbiddens: Iterable[ForbiddenLike],
+    ) -> None:
         with self._dag.update():
             for hp in hps:
                 self._dag.add(hp)
@@ -348,7 +364,6 @@ class ConfigurationSpace(Mapping[str, Hyperparameter]):
                 self._dag.add_forbidden(forbidden)
 
         self._len = len(self._dag.nodes)
-        self._check_default_configuration()
 
     def add_configuration_space(
         self,
-- 
2.43.0


From 3b1ca1499931e6e307893452e8c7d5ca2157fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:58:31 +0000
Subject: [PATCH 65/66] fix: count the steps below a discretized log-scale
 value exactly

---
 src/ConfigSpace/hyperparameters/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index e9ba3c3..666ebed 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -659,7 +659,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
                 stepsize = (orig_high - orig_low) / (self.steps - 1)
 
                 # Edge case for when qcenter is the lower bound
-                steps_to_take = int((qvector_orig - orig_low) / stepsize) + 1
+                steps_to_take = int(np.rint((qvector_orig - orig_low) / stepsize)) + 1
                 if steps_to_take == 1:
                     bottom = np.array([])
                 else:
-- 
2.43.0


From 43b17573424d401addcf6b8e29eaae268cbee16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:02:25 +0000
Subject: [PATCH 66/66] fix: fill up neighbours with levels that were not found
 yet

---
 src/ConfigSpace/hyperparameters/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConfigSpace/hyperparameters/distributions.py b/src/ConfigSpace/hyperparameters/distributions.py
index 666ebed..4d702b1 100644
--- a/src/ConfigSpace/hyperparameters/distributions.py
+++ b/src/ConfigSpace/hyperparameters/distributions.py
@@ -733,7 +733,7 @@ class DiscretizedContinuousScipyDistribution(Distribution, Generic[DType]):
         # Steps that are close together, i.e. on a log scale, are unlikely to be
         # sampled. Fill up with the ones we did not find.
         if n_available < 1000000:
-            available = self.neighborhood(vector, n_available)
+            available = self._quantize(self.neighborhood(vector, n_available))
             missing = np.setdiff1d(available, neighbors[:offset])
             seed.shuffle(missing)
             return np.concatenate((neighbors[1:offset], missing))[:n]
-- 
2.43.0

