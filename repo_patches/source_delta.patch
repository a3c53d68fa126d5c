From 0e2d196133357719aeb3166d5075692e63df1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 01/27] fix: transform the one-body spin elements in a basis
 change

The loop only rebound a local name, so spin_x, spin_y, spin_z and spin_2
stayed in the old basis (and had the wrong size after a rectangular change).
---
 quantum_systems/basis_set.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..fa7fd9c 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,10 +343,16 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
-                spin = self.transform_one_body_elements(
-                    spin, C, C_tilde=C_tilde, np=self.np
+                setattr(
+                    self,
+                    name,
+                    self.transform_one_body_elements(
+                        spin, C, C_tilde=C_tilde, np=self.np
+                    ),
                 )
 
     def _change_basis_two_body_elements(self, C, C_tilde):
-- 
2.43.0


From dce01c239afac543075073ed4d939bd470f12041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 02/27] fix: one-body spin-squared elements in a
 non-orthonormal basis

S_i S S_i is only correct for an orthonormal basis; s_i^2 = 1/4 gives 3/4 of
the overlap in general.
---
 quantum_systems/basis_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index fa7fd9c..bc92725 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -700,11 +700,13 @@ class BasisSet:
 
         l = len(spin_x)
 
-        spin_2 = np.zeros_like(spin_x)
+        # The single-particle operators satisfy s_i^2 = 1 / 4, which means that
+        # the one-body part is given by the overlap also in a non-orthonormal
+        # basis.
+        spin_2 = 0.75 * overlap.astype(spin_x.dtype)
         spin_2_tb = np.zeros((l, l, l, l), dtype=spin_2.dtype)
 
         for s_i in [spin_x, spin_y, spin_z]:
-            spin_2 += s_i @ overlap @ s_i
             spin_2_tb += np.einsum("pr, qs -> pqrs", s_i, s_i)
 
         return spin_2, spin_2_tb
-- 
2.43.0


From 04c6271c5d91eaa3cf408a3c82f8e4243f05cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 03/27] fix: copying of systems and basis sets that refer to
 the array module elsewhere

A potential (e.g. GaussianPotential) or operator holding the array module made
copy.deepcopy fail, and the failure left the source without its module. Handing
the module to deepcopy as already copied needs no temporary removal.
---
 quantum_systems/basis_set.py | 18 ++++--------------
 quantum_systems/system.py    | 20 ++++----------------
 2 files changed, 8 insertions(+), 30 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index bc92725..59090fd 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -745,9 +745,9 @@ class BasisSet:
         return [length == axis for axis in arr.shape]
 
     def copy_basis(self):
-        """Function creating a deep copy of the current basis. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current basis. The array module
+        cannot be copied and is therefore passed on to ``copy.deepcopy`` as
+        already being copied.
 
         Returns
         -------
@@ -755,14 +755,4 @@ class BasisSet:
             A deep copy of the current basis.
         """
 
-        np = self.np
-        self.np = None
-
-        new_basis = copy.deepcopy(self)
-
-        new_basis.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-
-        return new_basis
+        return copy.deepcopy(self, {id(self.np): self.np})
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..00d00f5 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -161,9 +161,9 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         )
 
     def copy_system(self):
-        """Function creating a deep copy of the current system. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        """Function creating a deep copy of the current system. The array
+        module cannot be copied and is therefore passed on to
+        ``copy.deepcopy`` as already being copied.
 
         Returns
         -------
@@ -171,16 +171,4 @@ class QuantumSystem(metaclass=abc.ABCMeta):
             A deep copy of the current system.
         """
 
-        np = self.np
-        self.np = None
-        self._basis_set.np = None
-
-        new_system = copy.deepcopy(self)
-
-        new_system.change_module(np)
-        self.change_module(np)
-
-        assert self.np is np
-        assert self._basis_set.np is np
-
-        return new_system
+        return copy.deepcopy(self, {id(self.np): self.np})
-- 
2.43.0


From cbdca04fe018560928668199cc58f1890da2e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 04/27] fix: general-orbital system from a spatial system with
 time-evolution operator

The operator refers to its system and thereby to the array module, which
copy.deepcopy cannot copy, so the construction always raised a TypeError.
---
 quantum_systems/spatial_orbital_system.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..9059c75 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -97,8 +97,12 @@ class SpatialOrbitalSystem(QuantumSystem):
         import copy
 
         if not self._time_evolution_operator is None:
+            # The operator refers to its system, which must not be copied.
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.deepcopy(
+                    self._time_evolution_operator,
+                    {id(self): gos, id(self.np): self.np},
+                )
             )
 
         return gos
-- 
2.43.0


From 25c2f24a44d1f9bdd228349fd5f03d73afac35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 05/27] fix: derivative of the quartic term in
 SymmetricDWPotential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From 95c1aa8274da48cae4cbc89459ee8c0292b51b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 06/27] fix: particle density of a complex density matrix and
 real functions

The density was accumulated in an array with the data type of the functions,
which raises for a complex density matrix.
---
 quantum_systems/system_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..ee14756 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,9 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(
+        ket_spf.shape[1:], dtype=np.result_type(ket_spf.dtype, rho_qp.dtype)
+    )
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From 500f534240af9af6b75f221c6f6f6e77f11fcefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 07/27] fix: write cached Coulomb elements atomically

A process interrupted while saving, or a second process reading meanwhile, left
or saw a truncated file, after which every later call failed to load it.
---
 .../quantum_dots/two_dim/two_dim_helper.py        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..0897d5d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,6 +1,7 @@
 import os
 import sys
 import time
+import uuid
 
 import numpy as np
 import scipy
@@ -242,8 +243,18 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements. The elements are moved in place when they are complete,
+    # such that an interrupted or concurrent process never leaves or sees a
+    # partially written file.
+    tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(tmp_filename, "wb") as f:
+            np.save(f, coulomb_elements)
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
+        raise
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From de47fc5c2a12b2463a35d209674ea789f4acc89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 08/27] fix: mass dependence of 2D Coulomb and double-well
 elements

The single-particle functions have the inverse length sqrt(mass * omega), but
the Coulomb elements were scaled by sqrt(omega) and the double-well barrier
m w^2 / 2 (b^2 / 4 - b|x|) lacked the mass.
---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 3 ++-
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 0897d5d..3536972 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -326,7 +326,7 @@ def get_double_well_one_body_elements(
 
         h[p, p] += (
             omega * get_shell_energy(n_p, m_p)
-            + omega ** 2 * barrier_strength ** 2 / 8.0
+            + mass * omega ** 2 * barrier_strength ** 2 / 8.0
         )
 
         for q in range(num_orbitals):
@@ -338,6 +338,7 @@ def get_double_well_one_body_elements(
 
             h[p, q] -= (
                 0.5
+                * mass
                 * omega ** 2
                 * barrier_strength
                 * spf_norm(n_p, m_p, mass, omega)
diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..e59c86d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -83,7 +83,7 @@ class TwoDimensionalHarmonicOscillator(BasisSet):
 
     def setup_basis(self):
         self._h = self.omega * get_one_body_elements(self.l)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements(
             self.l, verbose=self.verbose
         )
         self._s = np.eye(self.l)
@@ -290,7 +290,7 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
 
         self._h = get_one_body_elements_B(num_orbitals, df=self.df)
         self._s = np.eye(num_orbitals)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements_B(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements_B(
             num_orbitals, df=self.df
         )
 
-- 
2.43.0


From 3b2cc567ebd67d1fbfab90c42ff61c207df82f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 09/27] fix: ODSincDVR.set_u_repr stores the elements in the
 new representation

The new array was built but never stored. Refuse to drop elements when the
elements (e.g. after a basis change) do not fit in a 2d array.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..0fa6d86 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -130,6 +130,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -138,11 +139,16 @@ class ODSincDVR(BasisSet):
         elif new_repr == "2d":
             new_u = np.zeros((self.l, self.l), dtype=self.u.dtype)
             new_u[coords0, coords1] = self.u[coords0, coords1, coords0, coords1]
+
+            if np.count_nonzero(new_u) != np.count_nonzero(self.u):
+                raise ValueError("u can not be represented by a 2d array")
         else:
             raise ValueError(
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
-- 
2.43.0


From 2e40a538c69c6e29ed2f09d8fd34c40973d96667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 10/27] fix: accept spin basis functions in
 ODSincDVR.change_to_general_orbital_basis

GeneralOrbitalSystem passes a and b, so no general-orbital system could be
constructed from an ODSincDVR basis.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 0fa6d86..2f37fdc 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -182,7 +182,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -191,7 +193,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From 9d729d08d65860fcd8d2cc391a00feea79e7be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:40 +0000
Subject: [PATCH 11/27] fix: anti-symmetrize ODSincDVR elements stored in the
 2d representation

The 2d elements were left as they were, but flagged as anti-symmetrized.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 2f37fdc..f6202e5 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -216,6 +216,13 @@ class ODSincDVR(BasisSet):
         else:
             return super(ODSincDVR, ODSincDVR).add_spin_two_body(u, np)
 
+    def anti_symmetrize_two_body_elements(self):
+        # Anti-symmetrized elements do not fit in the 2d representation
+        if not self.anti_symmetrized_u and self.u_repr == "2d":
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     @staticmethod
     def anti_symmetrize_u(_u):
         if len(np.shape(_u)) == 2:
-- 
2.43.0


From 0ab084900fd5893322018656b296d3a169966d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:13 +0000
Subject: [PATCH 12/27] fix: refuse an invalid conversion to general orbitals
 before changing the basis

A failed orthonormality check of the spin functions, or a missing overlap, left
the basis half converted: flagged as spin-dependent and doubled in size.
---
 quantum_systems/basis_set.py                 | 30 ++++++++++++++------
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py |  8 +++++-
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 59090fd..7b06a6a 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -534,12 +534,14 @@ class BasisSet:
             )
             return
 
+        # Make sure that the conversion can be done prior to changing anything
+        a, b = self.check_spin_basis(a, b, self.np)
+        overlap = self.s.copy()
+
         self._includes_spin = True
 
         self.l = 2 * self.l
 
-        overlap = self.s.copy()
-
         self.h = self.add_spin_one_body(self.h, np=self.np)
         self.s = self.add_spin_one_body(self.s, np=self.np)
         self.u = self.add_spin_two_body(self.u, np=self.np)
@@ -549,13 +551,7 @@ class BasisSet:
         # self.spin_2 also becomes huge. Until a better representation of self.spin_2
         # can be found, we've removed the spin functionality.
         if getattr(self, "u_repr", "4d") != "2d":
-            self.a = self.np.array(a).astype(self.np.complex128).reshape(-1, 1)
-            self.b = self.np.array(b).astype(self.np.complex128).reshape(-1, 1)
-
-            # Check that spin basis elements are orthonormal
-            assert abs(self.np.dot(self.a.conj().T, self.a) - 1) < 1e-12
-            assert abs(self.np.dot(self.b.conj().T, self.b) - 1) < 1e-12
-            assert abs(self.np.dot(self.a.conj().T, self.b)) < 1e-12
+            self.a, self.b = a, b
 
             (
                 self.sigma_x,
@@ -596,6 +592,22 @@ class BasisSet:
 
         return self
 
+    @staticmethod
+    def check_spin_basis(a, b, np):
+        """Static method checking that the spin basis elements are orthonormal,
+        and returning them as complex column vectors.
+        """
+        a = np.array(a).astype(np.complex128).reshape(-1, 1)
+        b = np.array(b).astype(np.complex128).reshape(-1, 1)
+
+        # Check that spin basis elements are orthonormal
+        assert len(a) == len(b) == 2
+        assert abs(np.dot(a.conj().T, a) - 1) < 1e-12
+        assert abs(np.dot(b.conj().T, b) - 1) < 1e-12
+        assert abs(np.dot(a.conj().T, b)) < 1e-12
+
+        return a, b
+
     @staticmethod
     def setup_pauli_matrices(a, b, np):
         r"""Static method computing matrix elements of the Pauli spin-matrices
diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index f6202e5..14aa39c 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -185,7 +185,13 @@ class ODSincDVR(BasisSet):
     def change_to_general_orbital_basis(
         self, a=[1, 0], b=[0, 1], anti_symmetrize=True
     ):
-        if anti_symmetrize and self.u_repr == "2d":
+        if (
+            anti_symmetrize
+            and self.u_repr == "2d"
+            and not self.includes_spin
+        ):
+            self.check_spin_basis(a, b, self.np)
+
             if self.l > 100:
                 warnings.warn(
                     "Warning, l large. Change to gos with anti_symmetrize=True forces 4d u."
-- 
2.43.0


From e25d8d6a138761e5437debb1b292ca1d6656087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:13 +0000
Subject: [PATCH 13/27] fix: refuse a basis change that does not fit before
 changing anything

Coefficients of the wrong shape left the basis with a new size and old
elements; too few functions for the particles left the system with a size that
differs from that of its basis set.
---
 quantum_systems/basis_set.py | 10 +++++++---
 quantum_systems/system.py    |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 7b06a6a..3d1378b 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -416,13 +416,17 @@ class BasisSet:
             ``None`` and we treat ``C_tilde`` as the Hermitian conjugate of
             ``C``.
         """
-        # Update basis set size
-        self.l = C.shape[1]
-
         # Ensure that C_tilde is not None
         if C_tilde is None:
             C_tilde = C.conj().T
 
+        # Make sure that the coefficients fit prior to changing anything
+        assert C.ndim == 2 and C.shape[0] == self.l
+        assert C_tilde.shape == C.shape[::-1]
+
+        # Update basis set size
+        self.l = C.shape[1]
+
         self._change_basis_one_body_elements(C, C_tilde)
         self._change_basis_two_body_elements(C, C_tilde)
 
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 00d00f5..f99775e 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -64,6 +64,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         self._basis_set.change_module(self.np)
 
     def change_basis(self, C, C_tilde=None):
+        assert self.n <= C.shape[1]
+
         self._basis_set.change_basis(C, C_tilde)
         self.set_system_size(self.n, self._basis_set.l)
 
-- 
2.43.0


From eba5b4adf7ed4152b1900e2fbe278f8f037a8ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 14/27] fix: return the basis from a repeated conversion to
 general orbitals

As documented by the usage in GeneralOrbitalSystem the conversion returns the
basis, but it returned None for an already converted basis.
---
 quantum_systems/basis_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 3d1378b..f55cc68 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -536,7 +536,7 @@ class BasisSet:
                 "The basis has already been spin-doubled. Avoiding a second "
                 + "doubling."
             )
-            return
+            return self
 
         # Make sure that the conversion can be done prior to changing anything
         a, b = self.check_spin_basis(a, b, self.np)
-- 
2.43.0


From 02258c095a16bd84a4e84ce2f293e7fb6b9a1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 15/27] fix: reading the implied bra functions must not freeze
 them

The conjugate was stored on the first read (or cast or change of module), so
setting new ket functions afterwards left bra functions of the old ones.
---
 quantum_systems/basis_set.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index f55cc68..6b2f111 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -224,8 +224,9 @@ class BasisSet:
     @property
     def bra_spf(self):
         if self._bra_spf is None and self._spf is not None:
-            # Return complex conjugate in case of a Hermitian basis set.
-            self._bra_spf = self._spf.conj()
+            # Return complex conjugate in case of a Hermitian basis set. This
+            # is not stored, as it would outlive a change of the ket-states.
+            return self._spf.conj()
 
         return self._bra_spf
 
@@ -264,7 +265,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
@@ -285,7 +286,7 @@ class BasisSet:
             ("_s", self.s),
             ("_u", self.u),
             ("_spf", self.spf),
-            ("_bra_spf", self.bra_spf),
+            ("_bra_spf", self._bra_spf),
             ("_dipole_moment", self.dipole_moment),
             ("_spin_x", self.spin_x),
             ("_spin_y", self.spin_y),
-- 
2.43.0


From 131ca57c4b47f2bccb6ece14b83d68c9bc4abbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:41 +0000
Subject: [PATCH 16/27] fix: repeated setup of TwoDimHarmonicOscB must not
 raise the frequency

setup_basis replaced the bare by the effective frequency, so calling it again
added the field contribution once more.
---
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index e59c86d..7a32a8a 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -279,7 +279,9 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
         super().__init__(*args, **kwargs)
 
     def setup_basis(self):
-        self.omega = np.sqrt(self.omega ** 2 + self.omega_c ** 2 / 4)
+        # Keep the bare frequency for a repeated setup
+        self.omega_0 = getattr(self, "omega_0", self.omega)
+        self.omega = np.sqrt(self.omega_0 ** 2 + self.omega_c ** 2 / 4)
 
         num_orbitals = self.l
         n_array = np.arange(num_orbitals)
-- 
2.43.0


From 14117d89b9c4fe11cf13926cf70504571f248343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 17/27] fix: Fock matrix of real one-body and complex two-body
 elements

The Fock matrix was allocated with the data type of the one-body elements,
which raises when the two-body elements are complex.
---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/spatial_orbital_system.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..0d8e0ec 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -128,7 +128,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h.dtype, u.dtype))
 
         f.fill(0)
 
diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 9059c75..ad70cb2 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -164,7 +164,7 @@ class SpatialOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h.dtype, u.dtype))
 
         f.fill(0)
 
-- 
2.43.0


From a4bb29797fe421b9be5018c23b8c0f73b7c9cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 18/27] fix: refuse too many particles before converting the
 basis set

GeneralOrbitalSystem converted the basis set in-place and only then found that
the particles do not fit.
---
 quantum_systems/general_orbital_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 0d8e0ec..6855dda 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -39,6 +39,9 @@ class GeneralOrbitalSystem(QuantumSystem):
     def __init__(
         self, n, basis_set, a=[1, 0], b=[0, 1], anti_symmetrize=True, **kwargs
     ):
+        # Refuse prior to changing the basis set
+        assert n <= basis_set.l * (1 if basis_set.includes_spin else 2)
+
         if not basis_set.includes_spin:
 
             basis_set = basis_set.change_to_general_orbital_basis(
-- 
2.43.0


From a67b8e7cfd74f194f8e3dd416aa06d9f62cfc694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:43 +0000
Subject: [PATCH 19/27] fix: default laser polarization follows the system

The default was stored for the dimensionality of the first system, such that
the operator failed when it was set in a system of different dimensionality.
---
 .../time_evolution_operators/operator.py       | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..fddd1fd 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -92,17 +92,19 @@ class LaserField(TimeEvolutionOperator):
             tmp = self._laser_pulse
             self._laser_pulse = lambda t: tmp
 
-        if self._polarization is None:
-            # Set default polarization along x-axis
-            self._polarization = np.zeros(self._system.dipole_moment.shape[0])
-            self._polarization[0] = 1
+        polarization = self._polarization
 
-        if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+        if polarization is None:
+            # Use default polarization along x-axis. This is not stored, as it
+            # depends on the dimensionality of the current system.
+            polarization = np.zeros(self._system.dipole_moment.shape[0])
+            polarization[0] = 1
+
+        if callable(polarization):
+            polarization = polarization(current_time)
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
-- 
2.43.0


From 9dd34cac311909595293b8bf26fefc408171a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:17 +0000
Subject: [PATCH 20/27] fix: copying a Gaussian potential whose array module is
 not that of the basis

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index f06e60f..7bbb8ab 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -121,6 +121,11 @@ class GaussianPotential(OneDimPotential):
     def derivative(self, x):
         return -(x - self.center) / self.deviation ** 2 * self(x)
 
+    def __deepcopy__(self, memo):
+        # The array module, which need not be the module of the basis set,
+        # cannot be copied.
+        return type(self)(self.weight, self.center, self.deviation, self.np)
+
 
 class GaussianPotentialHardWall(OneDimPotential):
     """
-- 
2.43.0


From 58fc1753fe0742204332e287b348cee95e183b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:28 +0000
Subject: [PATCH 21/27] fix: refuse to transform an incomplete basis set before
 changing anything

---
 quantum_systems/basis_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 6b2f111..b80938d 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -421,7 +421,9 @@ class BasisSet:
         if C_tilde is None:
             C_tilde = C.conj().T
 
-        # Make sure that the coefficients fit prior to changing anything
+        # Make sure that the elements are in place and that the coefficients fit
+        # prior to changing anything
+        assert self.h is not None and self.u is not None
         assert C.ndim == 2 and C.shape[0] == self.l
         assert C_tilde.shape == C.shape[::-1]
 
@@ -540,6 +542,8 @@ class BasisSet:
             return self
 
         # Make sure that the conversion can be done prior to changing anything
+        assert self.h is not None and self.u is not None
+        assert self.s is not None
         a, b = self.check_spin_basis(a, b, self.np)
         overlap = self.s.copy()
 
-- 
2.43.0


From 39baa8e9771433064a1425e427f87bd35bf13824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 22/27] fix: time-evolution operator shared by two systems acts
 on the evaluated one

---
 quantum_systems/system.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index f99775e..56ca94f 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -144,12 +144,18 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         if self._time_evolution_operator is None:
             return self._basis_set.h
 
+        # The operator might have been passed to another system as well
+        self._time_evolution_operator.set_system(self)
+
         return self._time_evolution_operator.h_t(current_time)
 
     def u_t(self, current_time):
         if self._time_evolution_operator is None:
             return self._basis_set.u
 
+        # The operator might have been passed to another system as well
+        self._time_evolution_operator.set_system(self)
+
         return self._time_evolution_operator.u_t(current_time)
 
     def transform_one_body_elements(self, h, C, C_tilde=None):
-- 
2.43.0


From f91e2fe3cd3804d1a4bcba47d558868fcf2f4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:30 +0000
Subject: [PATCH 23/27] fix: add spin to a custom one-body operator in the
 general-orbital system

---
 quantum_systems/spatial_orbital_system.py           |  1 +
 .../time_evolution_operators/operator.py            | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index ad70cb2..10a4dc9 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -104,6 +104,7 @@ class SpatialOrbitalSystem(QuantumSystem):
                     {id(self): gos, id(self.np): self.np},
                 )
             )
+            gos._time_evolution_operator.change_to_general_orbital_basis()
 
         return gos
 
diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index fddd1fd..3ef057b 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -39,6 +39,14 @@ class TimeEvolutionOperator(metaclass=abc.ABCMeta):
 
         self._system = system
 
+    def change_to_general_orbital_basis(self):
+        """Internal function used when a system is converted to general
+        spin-orbitals. Operators containing matrix elements of their own should
+        add spin to these elements.
+        """
+
+        pass
+
     def h_t(self, current_time):
         """Function computing the one-body part of the Hamiltonian for a
         specified time.
@@ -144,3 +152,8 @@ class CustomOneBodyOperator(TimeEvolutionOperator):
             self._weight = lambda t: tmp
 
         return self._system.h + self._weight(current_time) * self._operator
+
+    def change_to_general_orbital_basis(self):
+        np = self._system.np
+
+        self._operator = np.kron(self._operator, np.eye(2))
-- 
2.43.0


From 1f0586a2a9e709b91b39fac181a5b55eb1f182df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:36 +0000
Subject: [PATCH 24/27] fix: a failed write of cached Coulomb elements must not
 go unnoticed

np.save to a real file does not report that the last buffer could not be
written, so a full disk left a truncated file behind in the cache.
---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 3536972..646d403 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -245,11 +246,14 @@ def get_coulomb_elements(num_orbitals, verbose=False):
 
     # Store elements. The elements are moved in place when they are complete,
     # such that an interrupted or concurrent process never leaves or sees a
-    # partially written file.
+    # partially written file. NumPy does not report all failures of writing an
+    # array directly to a file (e.g., a full disk), hence the buffer.
+    buffer = io.BytesIO()
+    np.save(buffer, coulomb_elements)
     tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
     try:
         with open(tmp_filename, "wb") as f:
-            np.save(f, coulomb_elements)
+            f.write(buffer.getbuffer())
         os.replace(tmp_filename, filename)
     except BaseException:
         if os.path.exists(tmp_filename):
-- 
2.43.0


From 37f4b760273e446b8be7a5cd8b1e7b49504e2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:16 +0000
Subject: [PATCH 25/27] fix: make_dipole_moment_hermitian must not modify its
 argument

---
 quantum_systems/random_basis.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quantum_systems/random_basis.py b/quantum_systems/random_basis.py
index e0468e9..088956b 100644
--- a/quantum_systems/random_basis.py
+++ b/quantum_systems/random_basis.py
@@ -39,10 +39,7 @@ class RandomBasisSet(BasisSet):
 
     @staticmethod
     def make_dipole_moment_hermitian(dipole_moment):
-        for i in range(len(dipole_moment)):
-            dipole_moment[i] = RandomBasisSet.make_hermitian(dipole_moment[i])
-
-        return dipole_moment
+        return 0.5 * (dipole_moment + dipole_moment.conj().transpose(0, 2, 1))
 
     @staticmethod
     def make_two_body_symmetry(u):
-- 
2.43.0


From 459e912666a29bc1beec3e28bc918f74b1834feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:22 +0000
Subject: [PATCH 26/27] fix: refuse a negative number of particles

---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/system.py                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 6855dda..a0d155e 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -40,7 +40,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         self, n, basis_set, a=[1, 0], b=[0, 1], anti_symmetrize=True, **kwargs
     ):
         # Refuse prior to changing the basis set
-        assert n <= basis_set.l * (1 if basis_set.includes_spin else 2)
+        assert 0 <= n <= basis_set.l * (1 if basis_set.includes_spin else 2)
 
         if not basis_set.includes_spin:
 
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 56ca94f..60da333 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -19,7 +19,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
     def __init__(self, n, basis_set):
         self._basis_set = basis_set
 
-        assert n <= self._basis_set.l
+        assert 0 <= n <= self._basis_set.l
 
         self.np = self._basis_set.np
         self.set_system_size(n, self._basis_set.l)
@@ -38,7 +38,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
             Number of basis functions.
         """
 
-        assert n <= l
+        assert 0 <= n <= l
 
         self.n = n
         self.l = l
-- 
2.43.0


From b7f839b9e34c7c12bada321a44ac46f2a9eb50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 27/27] fix: orbital numbers beyond 2**53 in get_indices_nm

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 646d403..1dbf305 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -149,11 +149,11 @@ def get_indices_nm(p):
         previous_shell = current_shell
         current_shell = previous_shell + shell_counter
 
-    middle = (current_shell - previous_shell) / 2 + previous_shell
+    # Integer arithmetic, as the orbital number can exceed the integers that
+    # are representable as floats
+    middle = (current_shell - previous_shell) // 2 + previous_shell
 
-    if (current_shell - previous_shell) & 0x1 == 1 and abs(
-        p - math.floor(middle)
-    ) < 1e-8:
+    if (current_shell - previous_shell) & 0x1 == 1 and p == middle:
         n = shell_counter // 2
         m = 0
 
-- 
2.43.0

