From ffad9f317dcd7704159cede3fb0d7ef65c743c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 01/46] fix: removing double counting from a bond without its
 mirror raised TypeError

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From 48189ce4c71d6cb2e3afb264c65cb748b30b9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:24 +0000
Subject: [PATCH 02/46] fix: remove_atom failed for bonded atoms when double
 counting is present

---
 src/magnopy/spinham/hamiltonian.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..7334a20 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -950,9 +950,11 @@ class SpinHamiltonian(Crystal):
         # No need to check for double counting explicitly
         # Both bonds -- ones that start and ones that end in atom -- are removed
         for parameter in parameters_for_removal:
-            # Parameter has different type (tuple or atom) but the same syntax
-            # works for both, see __delitem__ for details
-            del self[parameter]
+            # Mirrored bond might be already removed together with the bond
+            if parameter in self:
+                # Parameter has different type (tuple or atom) but the same syntax
+                # works for both, see __delitem__ for details
+                del self[parameter]
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From 70ab5ceeae977e08816e862fd8cd011979309443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:28 +0000
Subject: [PATCH 03/46] fix: remove_on_site ignored the atom given by name

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 7334a20..d230630 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -814,7 +814,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From a306b25bf2cb3810cf161b228ca472ad69cf4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 04/46] fix: parameter shared by several bonds was rescaled
 several times on notation change

---
 src/magnopy/spinham/hamiltonian.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d230630..a3514f8 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -379,8 +379,8 @@ class SpinHamiltonian(Crystal):
                 factor = 0.5
             # Scale exchange parameters
             if factor != 1:
-                for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= factor
+                for bond in self._exchange:
+                    self._exchange[bond] = self._exchange[bond] * factor
 
         # Add missed mirror bonds if necessary
         if new_value:
@@ -427,18 +427,24 @@ class SpinHamiltonian(Crystal):
             if self._spin_normalized and not new_value:
                 # For exchange
                 for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix /= atom1.spin * atom2.spin
+                    parameter = self._exchange[atom1, atom2, ijk]
+                    self._exchange[atom1, atom2, ijk] = parameter / (
+                        atom1.spin * atom2.spin
+                    )
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix /= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] / atom.spin**2
             # Absorb spin in the parameters
             elif not self._spin_normalized and new_value:
                 # For exchange
                 for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= atom1.spin * atom2.spin
+                    parameter = self._exchange[atom1, atom2, ijk]
+                    self._exchange[atom1, atom2, ijk] = parameter * (
+                        atom1.spin * atom2.spin
+                    )
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix *= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] * atom.spin**2
 
         self._spin_normalized = bool(new_value)
 
@@ -478,8 +484,10 @@ class SpinHamiltonian(Crystal):
         # If factor is changing one need to scale parameters.
         if self._exchange_factor is not None and self._exchange_factor != new_factor:
             # Only exchange parameters have to be scaled
-            for atom1, atom2, ijk in self._exchange:
-                self[atom1, atom2, ijk].matrix *= self._exchange_factor / new_factor
+            for bond in self._exchange:
+                self._exchange[bond] = self._exchange[bond] * (
+                    self._exchange_factor / new_factor
+                )
 
         self._exchange_factor = new_factor
 
@@ -520,7 +528,9 @@ class SpinHamiltonian(Crystal):
         if self._on_site_factor is not None and self._on_site_factor != new_factor:
             # Only on-site parameters have to be scaled
             for atom in self._on_site:
-                self[atom].matrix *= self._on_site_factor / new_factor
+                self._on_site[atom] = self._on_site[atom] * (
+                    self._on_site_factor / new_factor
+                )
 
         self._on_site_factor = new_factor
 
-- 
2.43.0


From 8d2083f5be197434a059c4b50db0c305d1eeccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 05/46] fix: overwriting a bond left a stale mirrored bond when
 double counting is present

---
 src/magnopy/spinham/hamiltonian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index a3514f8..2835f9f 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -722,9 +722,10 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
+            if self.double_counting and (atom2, atom1, (-i, -j, -k)) != (
+                atom1,
+                atom2,
+                (i, j, k),
             ):
                 self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
-- 
2.43.0


From 25bdb889795fc0e0e17d5d508e0e4d7baa18256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 06/46] fix: setting double counting replaced bonds that
 already have their mirror

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 2835f9f..a669bb2 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -314,7 +314,7 @@ class SpinHamiltonian(Crystal):
         bonds_to_add = []
         for atom1, atom2, (i, j, k), parameter in self.exchange:
             # Remember the mirrored bond if it is not in the Hamiltonian yet
-            if (atom2, atom1, (-i, -j, -k)) not in self.exchange:
+            if (atom2, atom1, (-i, -j, -k)) not in self:
                 bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
 
         # Add all missing bonds
-- 
2.43.0


From 40cfe15f2ead62eeb70725e853df6f1bbea2b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 07/46] fix: change of double counting has to preserve the sum
 of mirrored bonds

---
 src/magnopy/spinham/hamiltonian.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index a669bb2..5ac9410 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -346,7 +346,10 @@ class SpinHamiltonian(Crystal):
                 or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
-                if (atom2, atom1, (-i, -j, -k)) in self:
+                # Bond of the atom with itself is its own mirror and has to stay
+                if (atom2, atom1, (-i, -j, -k)) in self and not (
+                    atom1 == atom2 and i == j == k == 0
+                ):
                     bonds_to_remove.append((atom2, atom1, (-i, -j, -k)))
             # If mirrored bond has to stay
             else:
@@ -371,16 +374,22 @@ class SpinHamiltonian(Crystal):
         # If the attribute is redefined we need to scale the value of parameters
         if old_value is not None:
             factor = 1
-            # Mirrored bonds will be removed, remaining have to be doubled
-            if old_value and not new_value:
-                factor = 2
             # Mirror bonds will be added, existing ones have to be halfed
-            elif not old_value and new_value:
+            if not old_value and new_value:
                 factor = 0.5
             # Scale exchange parameters
-            if factor != 1:
-                for bond in self._exchange:
-                    self._exchange[bond] = self._exchange[bond] * factor
+            if not (old_value and new_value):
+                exchange = {}
+                for atom1, atom2, (i, j, k), parameter in self.exchange:
+                    bond, mirror = (atom1, atom2, (i, j, k)), (atom2, atom1, (-i, -j, -k))
+                    # Bond of the atom with itself is not affected
+                    if bond != mirror:
+                        # Only one bond of the pair will define the interaction
+                        if mirror in self:
+                            parameter = parameter + self[mirror].T
+                        parameter = parameter * factor
+                    exchange[bond] = parameter
+                self._exchange = exchange
 
         # Add missed mirror bonds if necessary
         if new_value:
-- 
2.43.0


From e79171050daa803d4616d2752a13ae6ca7644120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 08/46] fix: bond between atoms with equal indices was lost
 without double counting

---
 src/magnopy/spinham/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 5ac9410..3f769ce 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -343,7 +343,10 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                or (
+                    (i == 0 and j == 0 and k == 0)
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 # Bond of the atom with itself is its own mirror and has to stay
-- 
2.43.0


From 574387416424c4a6686649d3f67cb52760db92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:35 +0000
Subject: [PATCH 09/46] fix: on-site parameters had inverted scale in
 exchange_like

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 3f769ce..d1c5544 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1073,7 +1073,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From f945e54c55da1cb41085a08d39b9ddf5ab99c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 10/46] fix: Energy modified the given Hamiltonian and doubled
 exchange, ignored spin normalization

---
 src/magnopy/spinham/energy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..6e97c7f 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,13 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Work with the copy, given Hamiltonian should not be modified
+        spinham = spinham.copy()
+        # Force double counting notation with the spins that are not normalized
+        # (if notation is not defined, then the error is raised by spinham.notation)
+        _, _, exchange_factor, on_site_factor = spinham.notation
+        spinham.notation = (True, False, exchange_factor, on_site_factor)
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,10 +564,6 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
-
         # Get all bonds of the Hamiltonian.
         self._bonds = []
         for atom1, atom2, R, J in spinham.exchange_like:
@@ -569,9 +572,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From c38296178622885b4ba35fa6fc1762396d7b03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 11/46] fix: Zeeman energy ignored spin values and counted
 spins twice for the cone states

---
 src/magnopy/spinham/energy.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6e97c7f..db638fb 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1084,7 +1084,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1198,11 +1202,13 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1319,11 +1325,13 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From 3474c6a3b9effba41b5605c02c1c832cce9d3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 12/46] fix: wolfe_c2 returned the value of wolfe_c1

---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index db638fb..24c1944 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -673,7 +673,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
-- 
2.43.0


From 82b226d888cde50fc1095c31bced8b354915f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:31 +0000
Subject: [PATCH 13/46] fix: g_factors and spins of Energy could not be set

---
 src/magnopy/spinham/energy.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 24c1944..4d3b13a 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -738,7 +738,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -746,13 +746,14 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        new_value = list(new_value)
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_value[i] = float(g_factor)
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a float:{g_factor}."
                 )
         self._g_factors = new_value
 
@@ -770,18 +771,19 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        new_value = list(new_value)
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_value[i] = float(spin)
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a float:{spin}."
                 )
         self._spins = new_value
 
-- 
2.43.0


From 3d74963d444c3fd9e7a91765f05b0abbf7ebcddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 14/46] fix: gradient with respect to the cone axis was applied
 to the last spin in antiferro case

---
 src/magnopy/spinham/energy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 4d3b13a..f57f4cd 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -235,16 +235,16 @@ def _update_x_antiferro(x, search_direction, step=1):
             * 0 - I-1:  Orientation of the spin vectors
             * I: cone axis
         Second element: spiral vector
-    search_direction : (I*3+6,) :numpy:`ndarray`
+    search_direction : (I*3+3,) :numpy:`ndarray`
         Search direction computed in L-BFGS step
     step : float
         Size of the step along the search direction.
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -910,9 +910,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 14d26bae7f7c8125dbeab034e028c4ec6560d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 15/46] fix: energy was maximized with respect to the spiral
 vector

---
 src/magnopy/spinham/energy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f57f4cd..2824dbe 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -930,7 +930,7 @@ class Energy:
 
         [ t_0z, -t_0y, t_0x, ..., t_(I-1)z, -t_(I-1)y,
           t_(I-1)x, t_nz, -t_ny, t_nx,
-          dE/dq_x, dE/dq_y, dE/dq_z ]
+          -dE/dq_x, -dE/dq_y, -dE/dq_z ]
 
         where t_ix, t_iy, t_iz - are components of torque for ith spin in the
         unit cell (i = 0, I-1); t_nx, t_ny, t_nz 0 - are the components of the "torque"
@@ -1017,7 +1017,8 @@ class Energy:
             )
         # print(f"\n\n{gradient}\n\n")
 
-        gradient_vector[-3:] = gradient
+        # Sign is the same as for the torques, i.e. descent direction
+        gradient_vector[-3:] = -gradient
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 1b1b82b6692a52cfecec13ef08c6ef6c8b1cbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 16/46] fix: L-BFGS update used opposite sign of the gradient
 and skipped the first recursion

---
 src/magnopy/spinham/energy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 2824dbe..5617486 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1703,10 +1703,10 @@ class Energy:
             search_direction = gradient_vector
         else:
             self._d_vec[n] = previous_lambda * previous_search_direction
-            self._y_vec[n] = gradient_vector - previous_gradient_vector
-            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+            # Note: gradient_vector points in the descent direction
+            self._y_vec[n] = previous_gradient_vector - gradient_vector
 
-            if self._rho[n] < 0:
+            if self._d_vec[n] @ self._y_vec[n] <= 0:
                 return (
                     0,
                     self._compute_search_direction(0, gradient_vector=gradient_vector)[
@@ -1714,13 +1714,15 @@ class Energy:
                     ],
                 )
 
+            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]) ** 2)
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From 520c6ba20d14e4f0cdce96170ed2f1d5b6b22a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:17 +0000
Subject: [PATCH 17/46] fix: line search accepted steps that increase energy
 and rejected too short steps forever

---
 src/magnopy/spinham/energy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 5617486..f25c146 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1749,9 +1749,11 @@ class Energy:
         nabla = _grad(*_unpack(x))[0]
         i = 0
         tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
+        # Note: nabla is a descent direction. Step is only decreased, therefore, the
+        # slope is used to reject only the steps that are too long.
+        while energy(*_unpack(x_new)) > fx - (
             self._wolfe_c1 * step * nabla.T @ search_direction
-        ) or abs(nabla_new.T @ search_direction) > abs(
+        ) or -(nabla_new.T @ search_direction) > abs(
             self._wolfe_c2 * nabla.T @ search_direction
         ):
             step *= 0.99
@@ -1766,7 +1768,7 @@ class Energy:
             # )
             tmp[0].append(step)
             tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
+            tmp[2].append(fx - step * self._wolfe_c1 * nabla.T @ search_direction)
             if i > self._wolfe_iter_max:
                 print("\n\n")
                 # TODO go into the details and deal with the failing cases
-- 
2.43.0


From 7a3f0013a3de3f8629b69e5703932dd933c30042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:11 +0000
Subject: [PATCH 18/46] fix: magnon energies for negative semidefinite matrix
 and shape of zero energies

---
 src/magnopy/magnons/dispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..d26bef7 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -321,7 +321,7 @@ class MagnonDispersion:
                     # Try to solve for negative semidefinite matrix
                     try:
                         omegas, G = solve_via_colpa(
-                            -h - np.diag(1e-8 * np.ones(h.shape[0]))
+                            -h + np.diag(1e-8 * np.ones(h.shape[0]))
                         )
                         omegas *= -1
                         G *= -1
@@ -333,7 +333,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From c0c5e7deab1e360a7fe1ea23bdcfe5637832d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 19/46] fix: Colpa diagonalization for degenerate spectrum

---
 src/magnopy/magnons/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..1e49311 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,7 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From c92a5319cb365b2122915b371f757ce34d8d1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 20/46] fix: units of exchange parameters were ignored in .txt
 model file

---
 src/magnopy/io/txt/internal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..15a7a00 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
@@ -750,17 +750,19 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
     i = 1
     while i < len(lines):
         if lines[i].lower().startswith("i"):
-            iso = float(lines[i].split()[1])
+            iso = float(lines[i].split()[1]) * units_conversion
         if lines[i].lower().startswith("d"):
-            dmi = [float(x) for x in lines[i].split()[1:]]
+            dmi = np.array([float(x) for x in lines[i].split()[1:]]) * units_conversion
         if lines[i].lower().startswith("s"):
-            Sxx, Syy, Sxy, Sxz, Syz = [float(x) for x in lines[i].split()[1:]]
+            Sxx, Syy, Sxy, Sxz, Syz = [
+                float(x) * units_conversion for x in lines[i].split()[1:]
+            ]
             symm = [[Sxx, Sxy, Sxz], [Sxy, Syy, Syz], [Sxz, Syz, -Sxx - Syy]]
         if lines[i].lower().startswith("m"):
             matrix = np.zeros((3, 3), dtype=float)
             for j in range(3):
                 i += 1
-                matrix[j] = [float(x) for x in lines[i].split()]
+                matrix[j] = [float(x) * units_conversion for x in lines[i].split()]
         spinham.add_exchange(
             name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
         )
-- 
2.43.0


From 705a27545bbb0c0cdddc232ea438b37c4021b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 21/46] fix: spiral vector from .txt model file was converted
 to the wrong coordinates

---
 src/magnopy/io/txt/internal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 15a7a00..c70fcba 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -958,7 +958,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, units_conversion=1):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -987,6 +987,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
     -------
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian with added spiral-vector information.
+    units_conversion : float, default 1
+        Conversion factor for the units of length of the cell section, absolute
+        coordinates of the spiral vector are given in the inverse units of the cell.
 
     Notes
     -----
@@ -1018,8 +1021,11 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spiral vector is stored in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(
+            np.array(q) / units_conversion, spinham.reciprocal_cell
+        )
 
     spinham.spiral_vector = q
 
@@ -1157,6 +1163,13 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        cell_units = lines[sections["cell"][0]].lower().split()[1:]
+        if cell_units and cell_units[0].startswith("b"):
+            units_conversion = BOHR_RADIUS / LENGTH
+        else:
+            units_conversion = 1
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])], spinham, units_conversion
+        )
 
     return spinham
-- 
2.43.0


From 4eec71f27bd50423319696732f3473f070cdaeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:38 +0000
Subject: [PATCH 22/46] fix: missing and incomplete data in the atoms section
 of .txt model file

---
 src/magnopy/io/txt/internal.py | 23 ++++++++++++++---------
 src/magnopy/io/txt/verify.py   | 12 ++++++++++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index c70fcba..002abac 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -482,6 +482,11 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     # Read atom's data header
     data_header = lines[1].lower().split()
 
+    # Missing data are marked with the "-" symbol
+    def get_value(keyword, default=0.0):
+        value = line[data_header.index(keyword)]
+        return default if value == "-" else float(value)
+
     # Read atoms's information
     for line in lines[2:]:
         line = line.split()
@@ -511,27 +516,27 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
 
         # Find charge
         if "q" in data_header:
-            charge = float(line[data_header.index("q")])
+            charge = get_value("q")
         else:
             charge = 0
 
         # Find g factor
         if "g" in data_header:
-            g = float(line[data_header.index("g")])
+            g = get_value("g", default=2.0)
         else:
             g = 2.0
 
         # Find spin
         if "sx" in data_header:
             spin = (
-                float(line[data_header.index("sx")]),
-                float(line[data_header.index("sy")]),
-                float(line[data_header.index("sz")]),
+                get_value("sx"),
+                get_value("sy"),
+                get_value("sz"),
             )
         elif "sp" in data_header:
-            phi = float(line[data_header.index("sp")])
-            theta = float(line[data_header.index("st")])
-            s = float(line[data_header.index("s")])
+            phi = get_value("sp")
+            theta = get_value("st")
+            s = get_value("s")
             spin = [
                 s * np.sin(theta * TORADIANS) * np.cos(phi * TORADIANS),
                 s * np.sin(theta * TORADIANS) * np.sin(phi * TORADIANS),
@@ -541,7 +546,7 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
             spin = (
                 0,
                 0,
-                float(line[data_header.index("s")]),
+                get_value("s"),
             )
         else:
             spin = (0, 0, 0)
diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..b612540 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -762,6 +762,18 @@ def _verify_atoms(lines, line_indices):
                 )
             )
 
+            # Do not check the data, that do not correspond to the data header
+            continue
+
+        # Position of the atom can not be skipped
+        data_header = lines[1].lower().split()
+        for keyword in ["r1", "r2", "r3"] if "r1" in data_header else ["x", "y", "z"]:
+            if keyword in data_header and line[data_header.index(keyword)] == "-":
+                errors = True
+                _logger.error(
+                    f"Line {line_indices[i]}: position of the atom can not be skipped"
+                )
+
         # Check atom's names if any
         if name_index is not None:
             errors = errors or _verify_atom_name(line[name_index], line_indices[i])
-- 
2.43.0


From 9f62776c12cdcdf6df84f8dd0eb9ecd65f6f0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 23/46] fix: documented "Atoms Relative" header was rejected

---
 src/magnopy/io/txt/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index b612540..0847a1b 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,9 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(
+        lines[0], line_indices[0], ["a", "b", "r"]
+    )
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From b4eeb1388d4ea23d199122f81f40287cf0741c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:45 +0000
Subject: [PATCH 24/46] fix: missing notation and repeated sections of .txt
 model file were not detected

---
 src/magnopy/io/txt/verify.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0847a1b..100a635 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1496,6 +1496,14 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             + f"{line_indices[section_start]}-{line_indices[section_end-1]}"
         )
 
+        # Each section can be provided only once
+        if section_keyword in found_sections and section_keyword in _SUPPORTED_SECTIONS:
+            errors = True
+            _logger.error(
+                f"Line {line_indices[section_start]}: "
+                f'section "{section_keyword}" is provided more than once'
+            )
+
         # Save the position of the found section
         found_sections[section_keyword] = (section_start, section_end)
 
@@ -1505,6 +1513,13 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
             errors = True
             _logger.error(f'File: failed to find required section "{r_section}"')
 
+    # Notation is required if there are some parameters
+    if "notation" not in found_sections and (
+        "exchange" in found_sections or "on-site" in found_sections
+    ):
+        errors = True
+        _logger.error('File: failed to find required section "notation"')
+
     # Verify atoms section in advance, since we need to know a set of allowed atoms.
     if "atoms" in found_sections:
         allowed_atoms, atoms_errors = _verify_atoms(
-- 
2.43.0


From f97b43d305e41412a39fdaa7420dda9c881931aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 25/46] fix: dump of the spin angles to .txt model file failed

---
 src/magnopy/geometry.py        | 13 +++++++------
 src/magnopy/io/txt/internal.py |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..f8b4f51 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,20 +40,21 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    # Angles of the zero vector are not defined
+    if modulus == 0:
+        polar, azimuthal = 0.0, 0.0
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
     else:
         polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
         xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        azimuthal = np.arctan2(xy_projection[1], xy_projection[0])
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 002abac..59e93c6 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -212,8 +212,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From 942a00fd9d733f54ac3903fc61450586d66ae72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 26/46] fix: g-factors and charges of atoms were lost in .txt
 model file

---
 src/magnopy/io/txt/internal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 59e93c6..18c7fe5 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -196,6 +196,7 @@ def dump_spinham_txt(
         text[-1] += f" {'St':>6} {'Sp':>6} {'S':>6}"
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
+    text[-1] += f" {'g':>8} {'q':>8}"
     for atom in spinham.atoms:
         text.append(
             " ".join(
@@ -233,6 +234,11 @@ def dump_spinham_txt(
                     f"{'-':>8}",
                 ]
             )
+        text[-1] += f" {atom.g_factor:8.4f}"
+        try:
+            text[-1] += f" {atom.charge:8.4f}"
+        except ValueError:
+            text[-1] += f" {'-':>8}"
     text.append(SEPARATOR)
 
     # Write notation
-- 
2.43.0


From 88ed02b5c5caba6b44887a6f9600e5507a210686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:07 +0000
Subject: [PATCH 27/46] fix: exchange of the atom with itself was lost in .txt
 model file

---
 src/magnopy/io/txt/internal.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 18c7fe5..504f305 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -260,8 +260,6 @@ def dump_spinham_txt(
             text[-1] += f" # {'distance'}"
         text.append(SUBSEPARATOR)
         for atom1, atom2, ijk, parameter in spinham.exchange:
-            if atom1 == atom2 and ijk == (0, 0, 0):
-                continue
             if write_distance:
                 distance = spinham.get_distance(atom1, atom2, ijk)
             else:
-- 
2.43.0


From 3c3f4f781ed38064de5ddb51f4c0218e72a79b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:12 +0000
Subject: [PATCH 28/46] fix: symmetric part of the on-site parameter is written
 to .txt model file

---
 src/magnopy/io/txt/internal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 504f305..df4fd52 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -286,9 +286,13 @@ def dump_spinham_txt(
         text.append(SUBSEPARATOR)
         for atom, parameter in spinham.on_site:
             text.append(atom.name)
+            # Only the symmetric part of the matrix contributes to the energy
+            xy = (parameter.xy + parameter.yx) / 2
+            xz = (parameter.xz + parameter.zx) / 2
+            yz = (parameter.yz + parameter.zy) / 2
             text.append(
                 f"{parameter.xx:>8.4f} {parameter.yy:>8.4f} {parameter.zz:>8.4f} "
-                + f"{parameter.xy:>8.4f} {parameter.xz:>8.4f} {parameter.yz:>8.4f}"
+                + f"{xy:>8.4f} {xz:>8.4f} {yz:>8.4f}"
             )
             text.append(SUBSEPARATOR)
         text.append(SEPARATOR)
-- 
2.43.0


From 3d936edc3d827b9aae34e8e84a60f9e565955ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 29/46] fix: filtered copy of .txt model file could not be
 saved

---
 src/magnopy/io/txt/internal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index df4fd52..c52b338 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1106,7 +1107,9 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        filtered_filename = os.path.join(
+            os.path.dirname(filename), f"filtered_{os.path.basename(filename)}"
+        )
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From 92c16f1d57a6cd67a9565871b3ff76f41c456b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 30/46] fix: energy of the Hamiltonian without on-site
 parameters required on-site factor

---
 src/magnopy/spinham/energy.py      | 10 +++++++---
 src/magnopy/spinham/hamiltonian.py |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f25c146..2a24aa8 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -550,9 +550,13 @@ class Energy:
         # Work with the copy, given Hamiltonian should not be modified
         spinham = spinham.copy()
         # Force double counting notation with the spins that are not normalized
-        # (if notation is not defined, then the error is raised by spinham.notation)
-        _, _, exchange_factor, on_site_factor = spinham.notation
-        spinham.notation = (True, False, exchange_factor, on_site_factor)
+        # (if notation is not defined, then the error is raised, note that the
+        # on-site factor is not required if there are no on-site parameters)
+        notation = [spinham.double_counting, spinham.spin_normalized]
+        notation.append(spinham.exchange_factor)
+        if len(spinham.on_site) > 0:
+            notation.append(spinham.on_site_factor)
+        spinham.notation = [True, False] + notation[2:]
 
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d1c5544..f7f1db4 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1073,7 +1073,9 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # On-site factor is required only if there are on-site parameters
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From 196156e98684c5d4d86e2d14b14c893c99d7a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 31/46] fix: atoms and parameters from .hdf5 file were read in
 alphabetical order of their indices

---
 src/magnopy/io/hdf5/internal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..c3a8dbb 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -129,7 +129,7 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    for index in sorted(atoms, key=int):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +211,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in sorted(exchange, key=int):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +251,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in sorted(on_site, key=int):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From 7be6e17787a08e3346211e0d867eee8f7eec92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 32/46] fix: errors in .hdf5 file were reported with unrelated
 exceptions

---
 src/magnopy/io/hdf5/internal.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c3a8dbb..14e4545 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -123,7 +123,10 @@ def load_spinham_hdf5(
     elif cell.attrs["units"].lower().startswith("angstrom"):
         units_conversion = ANGSTROM / LENGTH
     else:
-        _logger.error(f"Unknown units '{cell['units']}' for cell in file '{filename}'.")
+        _logger.error(
+            f"Unknown units '{cell.attrs['units']}' for cell in file '{filename}'."
+        )
+        raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
     spinham.cell *= units_conversion
 
@@ -218,14 +221,14 @@ def load_spinham_hdf5(
                 atom1 = spinham.get_atom(atom1)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom1}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom1}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
             atom2 = bond["atom-2"][()].decode("utf-8")
             try:
                 atom2 = spinham.get_atom(atom2)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom2}" in exchange bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom2}" in exchange bond {index} not found in the atoms group in file "{filename}".'
                 )
             ijk = tuple(bond["ijk"][:])
             matrix = bond["matrix"][:]
@@ -258,7 +261,7 @@ def load_spinham_hdf5(
                 atom = spinham.get_atom(atom)
             except ValueError as e:
                 _logger.error(
-                    f'Atom "{atom}" in on-site bond {index+1} not found in the atoms group in file "{filename}".'
+                    f'Atom "{atom}" in on-site bond {index} not found in the atoms group in file "{filename}".'
                 )
             matrix = parameters["matrix"][:]
             spinham.add_on_site(atom, matrix=matrix * units_conversion)
-- 
2.43.0


From 07912ed33cebbc8c7d69c37e79fae2a678dc1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 33/46] fix: failed dump destroyed existing group of .hdf5 file
 and left the file open

---
 src/magnopy/io/hdf5/internal.py | 57 ++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 14e4545..2fb6b82 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -71,7 +71,28 @@ def load_spinham_hdf5(
     """
 
     # Open a file and try to detect the desired group
-    file = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as file:
+        return _load_spinham(file, filename, groupname)
+
+
+def _load_spinham(file, filename, groupname=None) -> SpinHamiltonian:
+    r"""
+    Load a SpinHamiltonian object from an open HDF5 file.
+
+    Parameters
+    ----------
+    file : h5py.File
+        Open HDF5 file.
+    filename : str
+        The name of the file.
+    groupname : str, optional
+        The name of the root group for the spin Hamiltonian.
+
+    Returns
+    -------
+    spinham : :py:class:`.SpinHamiltonian`
+        The SpinHamiltonian object loaded from the file.
+    """
 
     if groupname is None:
         _logger.info(f"Groupname not provided, trying to detect it in file {filename}.")
@@ -331,7 +352,36 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
-    file = h5py.File(filename, "a")
+    # Check the notation before the file is modified
+    if len(spinham.exchange) > 0 or len(spinham.on_site) > 0:
+        spinham.spin_normalized
+        if len(spinham.exchange) > 0:
+            spinham.double_counting, spinham.exchange_factor
+        if len(spinham.on_site) > 0:
+            spinham.on_site_factor
+
+    with h5py.File(filename, "a") as file:
+        _dump_spinham(spinham, file, filename, groupname, overwrite)
+
+
+def _dump_spinham(spinham, file, filename, groupname, overwrite=False) -> None:
+    r"""
+    Dump a SpinHamiltonian object to an open HDF5 file.
+
+    Parameters
+    ----------
+    spinham : :py:class:`.SpinHamiltonian`
+        The SpinHamiltonian object to be dumped.
+    file : h5py.File
+        Open HDF5 file.
+    filename : str
+        The name of the file.
+    groupname : str
+        The name of the root group for the spin Hamiltonian.
+    overwrite : bool, default False
+        Whether to overwrite already existing ``groupname``.
+    """
+
     try:
         root_group = file.create_group(groupname)
     except ValueError:
@@ -416,6 +466,3 @@ def dump_spinham_hdf5(
             "cone-axis", data=spinham.cone_axis, dtype=float
         )
         cone_axis.attrs["units"] = "Absolute"
-
-    if filename is not None:
-        file.close()
-- 
2.43.0


From cc6ba8e4799b7bb5590f36ced290ffd7ec4d8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:39 +0000
Subject: [PATCH 34/46] fix: dump of .mat file for vampire failed

---
 src/magnopy/io/txt/vampire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..052866a 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,7 +140,7 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if np.linalg.norm(atom.spin_direction) > 0:
                 text.append(
                     f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
                 )
-- 
2.43.0


From 7dffc2b4e3111a529151016cb4a9f9f2cd385d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:44 +0000
Subject: [PATCH 35/46] fix: Hamiltonian was modified if dump for vampire
 failed

---
 src/magnopy/io/txt/vampire.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 052866a..9897d67 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,13 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Work with the copy, given Hamiltonian should not be modified
+    spinham = spinham.copy()
+    # Notation has to be defined, note that the on-site factor is not required
+    # if there are no on-site parameters
+    spinham.double_counting, spinham.spin_normalized, spinham.exchange_factor
+    if len(spinham.on_site) > 0:
+        spinham.on_site_factor
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +251,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From f912dbb7b0dd956aca1d284cc9223c6b2bfd55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 36/46] fix: crystal of the Hamiltonian was not independent
 from it

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index f7f1db4..c813127 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1000,7 +1000,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From feb3af6018e49449431ef029b7bd6810f41c3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:49 +0000
Subject: [PATCH 37/46] fix: failed addition of a parameter left extra atoms or
 malformed bond in the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index c813127..ea3671d 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -713,27 +713,29 @@ class SpinHamiltonian(Crystal):
             Ignored if ``parameter`` is given.
         """
 
-        # Get the atom by the name
+        # Check the input before the Hamiltonian is modified
+        i, j, k = ijk
+
+        # Get the atoms by the names
         if isinstance(atom1, str):
             atom1 = self.get_atom(atom1)
-        elif atom1 not in self.atoms:
-            self.add_atom(atom1)
-
-        # Get the atom by the name
         if isinstance(atom2, str):
             atom2 = self.get_atom(atom2)
-        elif atom2 not in self.atoms:
-            self.add_atom(atom2)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        # Add atoms to the Hamiltonian if they are not in it
+        if atom1 not in self.atoms:
+            self.add_atom(atom1)
+        if atom2 not in self.atoms:
+            self.add_atom(atom2)
+
         self._exchange[(atom1, atom2, ijk)] = parameter
 
         # Check for double counting
         try:
-            i, j, k = ijk
             if self.double_counting and (atom2, atom1, (-i, -j, -k)) != (
                 atom1,
                 atom2,
@@ -812,15 +814,16 @@ class SpinHamiltonian(Crystal):
         # Get the atom by the name
         if isinstance(atom, str):
             atom = self.get_atom(atom)
-        # Add atom to the Hamiltonian if it is not in it
-        # Only works for Atom class
-        elif atom not in self.atoms:
-            self.add_atom(atom)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        # Add atom to the Hamiltonian if it is not in it
+        # Only works for Atom class
+        if atom not in self.atoms:
+            self.add_atom(atom)
+
         self._on_site[atom] = parameter
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
-- 
2.43.0


From 9dad444eda8bb3a45515815f46e427a1c0f1dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:03 +0000
Subject: [PATCH 38/46] fix: load_tb2j: accept a file without exchange blocks
 (and a separator at the end)

---
 src/magnopy/io/txt/tb2j.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/io/txt/tb2j.py b/src/magnopy/io/txt/tb2j.py
index 85605e6..1c71479 100644
--- a/src/magnopy/io/txt/tb2j.py
+++ b/src/magnopy/io/txt/tb2j.py
@@ -158,6 +158,9 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
         while line and minor_sep not in line:
             line = file.readline()
         line = file.readline().translate(garbage).split()
+        # No more exchange blocks in the file
+        if not line:
+            break
         atom1 = line[0]
         atom2 = line[1]
         R = tuple(map(int, line[2:5]))
-- 
2.43.0


From 8d10ee295cb1d44ec9245e6ee8c4b257f42b8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 39/46] fix: SpinHamiltonian.standardize: express bonds and
 spiral vector in the new lattice vectors

---
 src/magnopy/spinham/hamiltonian.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index ea3671d..9fe6c4a 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -985,6 +985,28 @@ class SpinHamiltonian(Crystal):
         # Remove an atom from the crystal
         super().remove_atom(atom)
 
+    def standardize(self):
+        r"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Lattice vectors change, therefore, the unit cells of the bonds and the spiral
+        vector are expressed with respect to the new lattice vectors.
+        """
+
+        # Get S matrix before cell standardization
+        S = self.S_matrix
+
+        # Standardize cell and recalculate positions of the atoms
+        super().standardize()
+
+        self._exchange = {
+            (atom1, atom2, tuple(int(x) for x in np.rint(S @ ijk))): parameter
+            for (atom1, atom2, ijk), parameter in self._exchange.items()
+        }
+
+        if self._spiral_vector is not None:
+            self._spiral_vector = np.linalg.inv(S).T @ self._spiral_vector
+
     @property
     def crystal(self) -> Crystal:
         r"""
-- 
2.43.0


From e66c0a748fe6083c330d4eaeb940430d7eedea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:54 +0000
Subject: [PATCH 40/46] fix: magnopy-minimize-energy: antiferromagnetic case
 (names of history files, summary) no longer fails

---
 src/magnopy/score/minimize_energy.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..a594a70 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -67,16 +67,16 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
     i = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
+        if (qrel == [0, 0, 0]).all():
+            continue
         i += 1
         print(qrel)
         history_file = f"{seedname}-antiferro-history-{i}"
-        if (qrel == [0, 0, 0]).all():
-            continue
 
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for j, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[j].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[j].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
@@ -209,8 +209,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for j in range(26):
+                output_file.write(f"  {j+1} {energies[i][j]:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 3acf70032066c43d33c887a7df3624bb1151012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:57 +0000
Subject: [PATCH 41/46] fix: minimize_energy.manager: default ground_state_type
 means all types

---
 src/magnopy/score/minimize_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index a594a70..c0fef81 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -168,7 +168,7 @@ def manager(
         energy.magnetic_field = magnetic_field
 
     # Decide which ground state types to minimize
-    if "all" in ground_state_type:
+    if ground_state_type is None or "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
     else:
         gs_to_minimize = ground_state_type
-- 
2.43.0


From 69624c983c00c7318d7703444df7dd72d4b6b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 42/46] fix: minimize_energy.manager: close the file with
 results

---
 src/magnopy/score/minimize_energy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index c0fef81..e77e34a 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -214,6 +214,8 @@ def manager(
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
+    output_file.close()
+
 
 def create_parser():
     parser = ArgumentParser()
-- 
2.43.0


From 482e7a5fc8aa38dae895106110e48af0bea26027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 43/46] fix: Energy.optimize: write the history when the
 maximum of iterations is reached

---
 src/magnopy/spinham/energy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 2a24aa8..d5f89aa 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1580,6 +1580,9 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
+                # Output remaining part of history
+                if save_history:
+                    history_processor(history, filename=history_filename)
                 return _unpack(x)
 
             # Compute gradient and torques
-- 
2.43.0


From a2ef9442783593b57fc3458455e691bd9580fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 44/46] fix: .hdf5 file with lattice vectors of whole numbers
 could not be loaded

---
 src/magnopy/io/hdf5/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 2fb6b82..085df9c 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -149,7 +149,7 @@ def _load_spinham(file, filename, groupname=None) -> SpinHamiltonian:
         )
         raise ValueError(f"Unknown units '{cell.attrs['units']}'.")
 
-    spinham.cell *= units_conversion
+    spinham.cell = spinham.cell * units_conversion
 
     # Read the atoms
     atoms = root_group["atoms"]
-- 
2.43.0


From 7c063a8ff453bc21cfaa693278e9d58d9a22b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 45/46] fix: add_exchange with an unusable ijk raised an error
 but left an atom or a malformed bond in the Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 9fe6c4a..80e9f49 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -715,6 +715,7 @@ class SpinHamiltonian(Crystal):
 
         # Check the input before the Hamiltonian is modified
         i, j, k = ijk
+        ijk, mirror = (i, j, k), (-i, -j, -k)
 
         # Get the atoms by the names
         if isinstance(atom1, str):
@@ -736,12 +737,8 @@ class SpinHamiltonian(Crystal):
 
         # Check for double counting
         try:
-            if self.double_counting and (atom2, atom1, (-i, -j, -k)) != (
-                atom1,
-                atom2,
-                (i, j, k),
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            if self.double_counting and (atom2, atom1, mirror) != (atom1, atom2, ijk):
+                self._exchange[(atom2, atom1, mirror)] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From e848b637bc198ef330dbe6fac67e87d5d88c163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 46/46] fix: history of a second minimisation in the same file
 was glued to the last row of the first one

---
 src/magnopy/spinham/energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index d5f89aa..64c5c2f 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -425,7 +425,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
@@ -459,7 +459,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
@@ -499,7 +499,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
         if filename is None:
             print(header, flush=True)
         else:
-            with open(filename, "a") as file:
+            with open(filename, "w") as file:
                 file.write(header)
     else:
         for i in range(len(history)):
-- 
2.43.0

