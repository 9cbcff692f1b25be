From 21f82db1e52744ba56e11f3431083d3f1d59210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:56 +0000
Subject: [PATCH 01/16] fix: entropy Hessian divides by the molecule sizes
 instead of multiplying

---
 flory/entropy/ideal_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/entropy/ideal_gas.py b/flory/entropy/ideal_gas.py
index ef4e69c..9e11a20 100644
--- a/flory/entropy/ideal_gas.py
+++ b/flory/entropy/ideal_gas.py
@@ -175,7 +175,7 @@ class IdealGasEntropyBase(EntropyBase):
             : The full Hessian.
         """
         # manually generate the matrix sine we assume no prior knowledge for the dimension of `phis``
-        ans_diag = 1.0 / phis * self._sizes
+        ans_diag = 1.0 / (phis * self._sizes)
         shape = list(ans_diag.shape)
         shape.append(self.num_comp)
         ans = np.zeros(shape)
-- 
2.43.0


From 141d2e9382b8270d9377bb908d40583f7edd28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:56 +0000
Subject: [PATCH 02/16] fix: chis_feat setter of block interaction uses the
 existing num_feat attribute

---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index e7b5dba..f594006 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -92,7 +92,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
     @chis_feat.setter
     def chis_feat(self, chis_feat_new: np.ndarray):
         chis_feat_new = convert_and_broadcast(
-            chis_feat_new, (self._num_feat, self._num_feat)
+            chis_feat_new, (self.num_feat, self.num_feat)
         )
         # ensure that the chi matrix is symmetric
         if not np.allclose(chis_feat_new, chis_feat_new.T):
-- 
2.43.0


From 5c7a141524c3af779b91224f3da81d3d2b08622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:32 +0000
Subject: [PATCH 03/16] fix: block interaction accepts asymmetric chis_feat
 instead of failing on a missing logger

---
 flory/interaction/flory_huggins_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index f594006..14f13ac 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -52,6 +52,7 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
                 The number of components in each feature. An integer indicates that this
                 value is the same for all features.
         """
+        self._logger = logging.getLogger(self.__class__.__name__)
         self.num_feat = num_feat
 
         num_comp_per_feat = convert_and_broadcast(num_comp_per_feat, (num_feat,))
@@ -68,7 +69,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
             num_comp=num_comp_per_feat.sum(),
             chis=make_square_blocks(chis_feat, num_comp_per_feat),
         )
-        self._logger = logging.getLogger(self.__class__.__name__)
 
     @property
     def num_comp_per_feat(self) -> np.ndarray:
-- 
2.43.0


From ed0a503a62f33af0ed19363486db0bdf80e71082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:32 +0000
Subject: [PATCH 04/16] fix: set_uniform_chis always stores floats so later
 random chis are not truncated

---
 flory/interaction/flory_huggins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 96a3a25..30ad4ca 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -310,7 +310,7 @@ class FloryHugginsInteraction(FloryHugginsInteractionBase):
                 Whether the diagonal elements of the :math:`\chi_{ij}` matrix are set to
                 be zero.
         """
-        self._chis = np.full((self.num_comp, self.num_comp), chi)
+        self._chis = np.full((self.num_comp, self.num_comp), chi, dtype=float)
         if vanishing_diagonal:
             self._chis[np.diag_indices_from(self._chis)] = 0
 
-- 
2.43.0


From d0d0c2cc5bf125addea6b29a0cad824ca1f3df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 05/16] fix: compiled block interaction owns a float64 copy of
 its chi matrix

---
 flory/interaction/flory_huggins.py       | 3 ++-
 flory/interaction/flory_huggins_block.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flory/interaction/flory_huggins.py b/flory/interaction/flory_huggins.py
index 30ad4ca..f91bbe1 100644
--- a/flory/interaction/flory_huggins.py
+++ b/flory/interaction/flory_huggins.py
@@ -132,7 +132,8 @@ class FloryHugginsInteractionBase(InteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis, -self._chis.min() + additional_chis_shift
+            np.array(self._chis, dtype=np.float64, order="C"),
+            -self._chis.min() + additional_chis_shift,
         )
 
     def _energy_impl(self, phis: np.ndarray) -> np.ndarray:
diff --git a/flory/interaction/flory_huggins_block.py b/flory/interaction/flory_huggins_block.py
index 14f13ac..6cb1f04 100644
--- a/flory/interaction/flory_huggins_block.py
+++ b/flory/interaction/flory_huggins_block.py
@@ -124,5 +124,6 @@ class FloryHugginsBlockInteraction(FloryHugginsInteractionBase):
         """
 
         return FloryHugginsInteractionCompiled(
-            self._chis_feat, -self._chis_feat.min() + additional_chis_shift
+            np.array(self._chis_feat, dtype=np.float64, order="C"),
+            -self._chis_feat.min() + additional_chis_shift,
         )
-- 
2.43.0


From 658669098beee7685199dae95ed992c28040e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 06/16] fix: compiled canonical ensemble copies phi_means to a
 contiguous float64 array

---
 flory/ensemble/canonical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/ensemble/canonical.py b/flory/ensemble/canonical.py
index 6b18e41..97debf5 100644
--- a/flory/ensemble/canonical.py
+++ b/flory/ensemble/canonical.py
@@ -114,4 +114,6 @@ class CanonicalEnsemble(EnsembleBase):
         Returns:
             : Instance of :class:`CanonicalEnsembleCompiled`.
         """
-        return CanonicalEnsembleCompiled(self._phi_means)
+        return CanonicalEnsembleCompiled(
+            np.array(self._phi_means, dtype=np.float64, order="C")
+        )
-- 
2.43.0


From e4fab379c95cb702f9f5c1113828eb490651d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 07/16] fix: compiled grand canonical ensemble owns a float64
 copy of the activities

---
 flory/ensemble/grandcanonical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index 6d9d62a..d01f566 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -139,4 +139,6 @@ class GrandCanonicalEnsemble(EnsembleBase):
             : Instance of :class:`GrandCanonicalEnsembleCompiled`.
         """
 
-        return GrandCanonicalEnsembleCompiled(self._scaled_activity)
+        return GrandCanonicalEnsembleCompiled(
+            np.array(self._scaled_activity, dtype=np.float64, order="C")
+        )
-- 
2.43.0


From 7d9041e084efcdfa04edde8e189a8fcb97ff5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 08/16] fix: compiled linear constraints own contiguous float64
 copies of Cs and Ts

---
 flory/constraint/linear_global.py | 5 ++++-
 flory/constraint/linear_local.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flory/constraint/linear_global.py b/flory/constraint/linear_global.py
index 5aa96ec..d4cb02a 100644
--- a/flory/constraint/linear_global.py
+++ b/flory/constraint/linear_global.py
@@ -217,5 +217,8 @@ class LinearGlobalConstraint(ConstraintBase):
             : Instance of :class:`LinearGlobalConstraintCompiled`.
         """
         return LinearGlobalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
diff --git a/flory/constraint/linear_local.py b/flory/constraint/linear_local.py
index 0bcd33d..2da5452 100644
--- a/flory/constraint/linear_local.py
+++ b/flory/constraint/linear_local.py
@@ -210,5 +210,8 @@ class LinearLocalConstraint(ConstraintBase):
             : Instance of :class:`LinearLocalConstraintCompiled`.
         """
         return LinearLocalConstraintCompiled(
-            self._Cs, self._Ts, constraint_acceptance_ratio, constraint_elasticity
+            np.array(self._Cs, dtype=np.float64, order="C"),
+            np.array(self._Ts, dtype=np.float64, order="C"),
+            constraint_acceptance_ratio,
+            constraint_elasticity,
         )
-- 
2.43.0


From 0d76a31370cf1a0922030a00222cc4ef278e0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 09/16] fix: field error reported by the iteration is the
 maximum absolute deviation

---
 flory/mcmp/_finder_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index ee116e5..25eb842 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -400,7 +400,9 @@ def multicomponent_self_consistent_metastep(
         for itr_comp in range(num_feat):
             omega_temp[itr_comp] -= omegas[itr_comp]
             omega_temp[itr_comp] *= masks
-            max_abs_omega_diff = max(max_abs_omega_diff, omega_temp[itr_comp].max())
+            max_abs_omega_diff = max(
+                max_abs_omega_diff, np.abs(omega_temp[itr_comp]).max()
+            )
             omegas[itr_comp] += (
                 additional_factor * acceptance_omega * omega_temp[itr_comp]
             )
-- 
2.43.0


From 6426dd8f56474e022ab4b4c359318b5d65b2c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 10/16] fix: reviving by copy does not crash when no
 compartment exceeds twice the threshold

---
 flory/mcmp/_finder_impl.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/flory/mcmp/_finder_impl.py b/flory/mcmp/_finder_impl.py
index 25eb842..6189e4d 100644
--- a/flory/mcmp/_finder_impl.py
+++ b/flory/mcmp/_finder_impl.py
@@ -185,11 +185,22 @@ def revive_compartments_by_copy(
             dead_indexes[dead_count] = itr_compartment
             dead_count += 1
 
+    # dead compartments must not serve as reference, even if they have some volume left
+    for itr_dead in dead_indexes[:dead_count]:
+        Js[itr_dead] = 0.0
+
     for itr_dead in dead_indexes[:dead_count]:
         while True:
-            pos_in_living = rng.integers(0, living_nicely_count)
-            ref_index = living_nicely_indexes[pos_in_living]
-            if Js[int(ref_index)] > 2.0 * threshold:
+            if living_nicely_count > 0:
+                pos_in_living = rng.integers(0, living_nicely_count)
+                ref_index = living_nicely_indexes[pos_in_living]
+            else:
+                # no compartment is large enough, fall back to splitting the largest one
+                pos_in_living = 0
+                ref_index = np.int32(Js.argmax())
+                if Js[ref_index] <= 0.0:
+                    return revive_count  # there is no living compartment at all
+            if living_nicely_count == 0 or Js[int(ref_index)] > 2.0 * threshold:
                 targets[:, itr_dead] = targets[:, ref_index]
                 new_J = 0.5 * Js[ref_index]
                 Js[itr_dead] = new_J
-- 
2.43.0


From c80e813b9b032df6a4833c254208d6176b20f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 11/16] fix: get_clusters returns the phases sorted as
 documented

---
 flory/common/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/common/phases.py b/flory/common/phases.py
index a032adc..8e5d38a 100644
--- a/flory/common/phases.py
+++ b/flory/common/phases.py
@@ -141,7 +141,7 @@ class Phases:
             cluster_fractions.append(mean_fractions)
             cluster_volumes.append(current_volumes.sum())
 
-        return self._copy(cluster_volumes, cluster_fractions)
+        return self._copy(cluster_volumes, cluster_fractions).sort()
 
 
 class PhasesResult(Phases):
-- 
2.43.0


From 35adffabe544f6bbeeb828a548192ae29c8cc8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 12/16] fix: rejected instances no longer replace the current
 ones of the finder

---
 flory/mcmp/finder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 94cd7be..cfb516f 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -324,10 +324,9 @@ class CoexistingPhasesFinder:
             kwargs:
                 The keyword arguments to update the default.
         """
-        self._interaction = interaction.compiled(
-            **{**self._kwargs_for_instances, **kwargs}
-        )
-        self.check_instance(self._interaction)
+        new_interaction = interaction.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(new_interaction)
+        self._interaction = new_interaction
         if if_reset_revive:
             self.reset_revive()
 
@@ -348,8 +347,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._entropy)
+        new_entropy = entropy.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(new_entropy)
+        self._entropy = new_entropy
         if if_reset_revive:
             self.reset_revive()
 
@@ -370,8 +370,9 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
-        self.check_instance(self._ensemble)
+        new_ensemble = ensemble.compiled(**{**self._kwargs_for_instances, **kwargs})
+        self.check_instance(new_ensemble)
+        self._ensemble = new_ensemble
         if if_reset_revive:
             self.reset_revive()
 
@@ -400,12 +401,12 @@ class CoexistingPhasesFinder:
                 The keyword arguments to update the default.
         """
 
-        self._constraints = []
+        new_constraints = []
         if constraints:
             if isinstance(constraints, ConstraintBase):
                 if kwargs_individual is None:
                     kwargs_individual = {}
-                self._constraints.append(
+                new_constraints.append(
                     constraints.compiled(
                         **{**self._kwargs_for_instances, **kwargs, **kwargs_individual}
                     )
@@ -414,16 +415,17 @@ class CoexistingPhasesFinder:
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
                 for cons, current_args in zip(constraints, kwargs_individual):
-                    self._constraints.append(
+                    new_constraints.append(
                         cons.compiled(
                             **{**self._kwargs_for_instances, **kwargs, **current_args}
                         )
                     )
         else:
-            self._constraints.append(NoConstraintCompiled(self._num_feat))
+            new_constraints.append(NoConstraintCompiled(self._num_feat))
 
-        for cons in self._constraints:
+        for cons in new_constraints:
             self.check_instance(cons)
+        self._constraints = new_constraints
 
         self.reinitialize_constraint()
 
-- 
2.43.0


From baa6c61d10c8cfe45f998468a6a1eb6964648b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 13/16] fix: set_constraints refuses to silently drop
 constraints without individual arguments

---
 flory/mcmp/finder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index cfb516f..03e8233 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -414,6 +414,10 @@ class CoexistingPhasesFinder:
             elif isinstance(constraints, Iterable):
                 if kwargs_individual is None:
                     kwargs_individual = [{}] * len(constraints)
+                if len(kwargs_individual) != len(constraints):
+                    raise ValueError(
+                        "kwargs_individual must provide one dictionary per constraint."
+                    )
                 for cons, current_args in zip(constraints, kwargs_individual):
                     new_constraints.append(
                         cons.compiled(
-- 
2.43.0


From 024799cf8efc3fffd2398d099418d2e22790aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:06 +0000
Subject: [PATCH 14/16] fix: fields given as integers or single precision are
 converted to floats

---
 flory/mcmp/finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/mcmp/finder.py b/flory/mcmp/finder.py
index 03e8233..5923d99 100644
--- a/flory/mcmp/finder.py
+++ b/flory/mcmp/finder.py
@@ -298,7 +298,7 @@ class CoexistingPhasesFinder:
         Returns:
             : The field converted to numpy array.
         """
-        field = np.array(field)
+        field = np.array(field, dtype=float)
         if field.shape != self._omegas.shape:
             self._logger.error(
                 "field with size of %s is invalid. It must have the size of %s.",
-- 
2.43.0


From f2463744f8be045568345781291bb6e1d9993aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:06 +0000
Subject: [PATCH 15/16] fix: features without components have vanishing volume
 fraction

---
 flory/entropy/ideal_gas_polydispersed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flory/entropy/ideal_gas_polydispersed.py b/flory/entropy/ideal_gas_polydispersed.py
index a7e3674..e26caf1 100644
--- a/flory/entropy/ideal_gas_polydispersed.py
+++ b/flory/entropy/ideal_gas_polydispersed.py
@@ -84,9 +84,8 @@ class IdealGasPolydispersedEntropyCompiled(EntropyBaseCompiled):
     def comp_to_feat(self, phis_feat: np.ndarray, phis_comp: np.ndarray) -> None:
         itr_comp = 0
         for itr_feat in range(self._num_feat):
-            phis_feat[itr_feat] = phis_comp[itr_comp]
-            itr_comp += 1
-            for _ in range(1, self._num_comp_per_feat[itr_feat]):
+            phis_feat[itr_feat] = 0.0
+            for _ in range(self._num_comp_per_feat[itr_feat]):
                 phis_feat[itr_feat] += phis_comp[itr_comp]
                 itr_comp += 1
 
-- 
2.43.0


From 0019c04a0e9f872df768d4ab9198c44c967db57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:46 +0000
Subject: [PATCH 16/16] fix: activities from integer chemical potentials are
 computed in double precision

---
 flory/ensemble/grandcanonical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flory/ensemble/grandcanonical.py b/flory/ensemble/grandcanonical.py
index d01f566..c6489cc 100644
--- a/flory/ensemble/grandcanonical.py
+++ b/flory/ensemble/grandcanonical.py
@@ -117,7 +117,7 @@ class GrandCanonicalEnsemble(EnsembleBase):
         mus = np.atleast_1d(mus)
 
         shape = (num_comp,)
-        mus = np.array(np.broadcast_to(mus, shape))
+        mus = np.array(np.broadcast_to(mus, shape), dtype=float)
 
         if sizes is None:
             sizes = np.ones_like(mus)
-- 
2.43.0

