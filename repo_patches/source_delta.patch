From c67b4ad16bdddb9c121eb347395455dfc2d1e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 01/82] fix: use shortest grid vector for tolerance of BZ
 reduction

With the longest vector, the tolerance exceeds the distances between
neighboring points of anisotropic generalized regular grids, by which wrong
addresses are chosen and more than 8 addresses per point can be stored (heap
overflow).
---
 c/recgrid.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/recgrid.c b/c/recgrid.c
index 1fe6f55..f7fe5bf 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -210,9 +210,11 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
         }
         length[i] /= bzgrid->D_diag[i] * bzgrid->D_diag[i];
     }
+    /* The shortest vector is used because the vectors can be very anisotropic */
+    /* for generalized regular grids. */
     tolerance = length[0];
     for (i = 1; i < 3; i++) {
-        if (tolerance < length[i]) {
+        if (tolerance > length[i]) {
             tolerance = length[i];
         }
     }
-- 
2.43.0


From 4d82c43aae5e0d6f0998e77a1223d86086a06209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 02/82] fix: take grid shift into account in rotating grid
 points

---
 phono3py/phonon/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..a4adbcc 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -976,9 +976,15 @@ def get_grid_points_by_rotations(
         return _get_grid_points_by_rotations(bz_gp, bz_grid, rec_rots)
 
 
+def _get_rotated_addresses(bz_gp, bz_grid: BZGrid, rotations):
+    """Rotate grid address considering grid shift using double-grid address."""
+    dadrs = bz_grid.addresses[bz_gp] * 2 + bz_grid.PS
+    return (np.dot(rotations, dadrs) - bz_grid.PS) // 2
+
+
 def _get_grid_points_by_rotations(bz_gp, bz_grid: BZGrid, rotations):
     """Grid point rotations without surface treatment."""
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _get_rotated_addresses(bz_gp, bz_grid, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     return bz_grid.grg2bzg[grgps]
 
@@ -1016,7 +1022,7 @@ def _get_grid_points_by_bz_rotations_py(bz_gp, bz_grid: BZGrid, rotations):
     indices.
 
     """
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _get_rotated_addresses(bz_gp, bz_grid, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     bzgps = np.zeros(len(grgps), dtype="int64")
     if bz_grid.store_dense_gp_map:
-- 
2.43.0


From 6f69487aebc8598b9224b9d03bb204863ad0d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 03/82] fix: refuse phonon data whose grid addresses differ at
 any point

---
 phono3py/phonon3/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..25bfe6e 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -696,7 +696,7 @@ class Interaction:
                 "Input grid address size is inconsistent. Setting phonons failed."
             )
 
-        if (self._bz_grid.addresses - bz_grid_addresses).all():
+        if (self._bz_grid.addresses != bz_grid_addresses).any():
             raise RuntimeError(
                 "Input grid addresses are inconsistent. Setting phonons failed."
             )
-- 
2.43.0


From dae207a3fa8951b6bf730815d0195233e16dfa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 04/82] fix: reset NAC flag when phonons at Gamma without NAC
 are restored

---
 phono3py/phonon3/interaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 25bfe6e..db04949 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -738,6 +738,7 @@ class Interaction:
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
+            self._done_nac_at_gamma = False
             return
 
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
-- 
2.43.0


From c7a5898a7a78fdc51aea8b37ae3116b4c46d9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 05/82] fix: discard triplets maps of the previous grid point

---
 phono3py/phonon3/interaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index db04949..1dbc7d9 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -663,6 +663,9 @@ class Interaction:
         if store_triplets_map:
             self._triplets_map_at_q = triplets_map_at_q
             self._ir_map_at_q = ir_map_at_q
+        else:
+            self._triplets_map_at_q = None
+            self._ir_map_at_q = None
 
     def init_dynamical_matrix(
         self,
-- 
2.43.0


From 77e5078b4b6af1d9028f489598245d0b0de2960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 06/82] fix: store detailed gamma of each sigma and temperature
 once

---
 phono3py/phonon3/imag_self_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From 75ce9f31d65c493b0d0c084ad2b76b1d4ad9d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 07/82] fix: require supercell energies in MLP dataset

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..939fcba 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2708,7 +2708,7 @@ class Phono3py:
             raise RuntimeError("Displacements have to be given.")
         if "forces" not in mlp_dataset:
             raise RuntimeError("Forces have to be given.")
-        if "supercell_energy" in mlp_dataset:
+        if "supercell_energies" not in mlp_dataset:
             raise RuntimeError("Supercell energies have to be given.")
         if len(mlp_dataset["displacements"]) != len(mlp_dataset["forces"]):
             raise RuntimeError("Length of displacements and forces are different.")
-- 
2.43.0


From d4731288c58df8a215ee2581fa2f36c1b029cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 08/82] fix: check phonon MLP in saving phonon MLP

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 939fcba..336e1ac 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2303,7 +2303,7 @@ class Phono3py:
 
     def save_phonon_mlp(self, filename: Optional[str] = None):
         """Save machine learning potential."""
-        if self._mlp is None:
+        if self._phonon_mlp is None:
             raise RuntimeError("MLP is not developed yet.")
 
         self._phonon_mlp.save(filename=filename)
-- 
2.43.0


From 70fbe39ff3bdb0a8902e71f3098574604dced2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 09/82] fix: initialize detailed gammas

---
 phono3py/api_phono3py.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 336e1ac..433df44 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -283,6 +283,7 @@ class Phono3py:
 
         # Imaginary part of self energy at frequency points
         self._gammas = None
+        self._detailed_gammas = None
         self._scattering_event_class = None
 
         # Frequency shift (real part of bubble diagram)
-- 
2.43.0


From e783e8f21bf756ec0890eafdc42dcb9bc0ca710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 10/82] fix: return None when supercell energies are not found
 in dataset

---
 phono3py/api_phono3py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 433df44..3a644bf 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2585,6 +2585,8 @@ class Phono3py:
                 )
                 type1_target = "forces"
             elif target == "supercell_energies":
+                if "supercell_energy" not in self._dataset["first_atoms"][0]:
+                    return None
                 values = np.zeros(num_scells, dtype="double")
                 type1_target = "supercell_energy"
             count = 0
-- 
2.43.0


From 983b1b98184a1fa55a063bab535530c2623f91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 11/82] fix: use collision matrix and gamma read from files as
 they are

---
 phono3py/conductivity/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..b48f9df 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1046,7 +1046,7 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
@@ -1124,6 +1124,9 @@ def set_collision_from_file(
                             return False
             read_from = "grid_points"
 
+    # By this setter, gamma and collision matrix are not calculated again.
+    lbte.gamma = lbte.gamma
+
     return read_from
 
 
@@ -1237,7 +1240,7 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
@@ -1245,7 +1248,7 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
     temperatures[:] = temperatures_at_band
 
-- 
2.43.0


From 561eff97e0d4cebefc39055eb37fcd8d39635eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 12/82] fix: select temperatures by indices in reading
 collision files

---
 phono3py/conductivity/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index b48f9df..10c03e2 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1166,6 +1166,8 @@ def _allocate_collision(
         return False
 
     temperatures = collision[2]
+    if indices != "all":
+        temperatures = temperatures[indices]
     return None, None, temperatures
 
 
-- 
2.43.0


From 60062af58b2f0bd8256aaf088fd6b735d189ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 13/82] fix: write gamma_isotope of respective grid point in
 collision file

---
 phono3py/conductivity/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 10c03e2..9dfdc43 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -426,17 +426,19 @@ class ConductivityLBTEWriter:
 
         if i is not None:
             gp = grid_points[i]
+            # gamma_isotope is always stored for all grid points.
+            if is_reducible_collision_matrix:
+                igp_iso = interaction.bz_grid.bzg2grg[gp]
+            else:
+                igp_iso = i
             if is_one_gp_colmat:
                 igp = 0
             else:
-                if is_reducible_collision_matrix:
-                    igp = interaction.bz_grid.bzg2grg[gp]
-                else:
-                    igp = i
+                igp = igp_iso
             if all_bands_exist(interaction):
                 for j, sigma in enumerate(sigmas):
                     if gamma_isotope is not None:
-                        gamma_isotope_at_sigma = gamma_isotope[j, igp]
+                        gamma_isotope_at_sigma = gamma_isotope[j, igp_iso]
                     else:
                         gamma_isotope_at_sigma = None
                     write_collision_to_hdf5(
@@ -454,7 +456,7 @@ class ConductivityLBTEWriter:
                 for j, sigma in enumerate(sigmas):
                     for k, bi in enumerate(interaction.band_indices):
                         if gamma_isotope is not None:
-                            gamma_isotope_at_sigma = gamma_isotope[j, igp, k]
+                            gamma_isotope_at_sigma = gamma_isotope[j, igp_iso, k]
                         else:
                             gamma_isotope_at_sigma = None
                         write_collision_to_hdf5(
-- 
2.43.0


From abad0c4131ff95454fffd7d181f90a21390e3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 14/82] fix: use frequencies on BZ grid for RTA with reducible
 collision matrix

---
 phono3py/conductivity/direct_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..83f480e 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1027,7 +1027,7 @@ class ConductivityLBTEBase(ConductivityBase):
         )
 
         for gp in range(num_mesh_points):
-            frequencies = self._frequencies[gp]
+            frequencies = self._frequencies[self._pp.bz_grid.grg2bzg[gp]]
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
                     i_mode = gp * num_band + j
-- 
2.43.0


From e88a5facde5f1af45dded7004ff494d99a13caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 15/82] fix: refuse non-integer inverse of transformation
 matrix

---
 phono3py/phonon/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index a4adbcc..bcb9f68 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -740,7 +740,7 @@ class GridMatrix:
         """
         tmat_inv = np.linalg.inv(transformation_matrix)
         tmat_inv_int = np.rint(tmat_inv).astype(int)
-        if (tmat_inv - tmat_inv_int > 1e-8).all():
+        if (abs(tmat_inv - tmat_inv_int) > 1e-8).any():
             msg = "Inverse of transformation matrix has to be an integer matrix."
             raise RuntimeError(msg)
         if determinant(tmat_inv_int) < 0:
-- 
2.43.0


From e59de931ada5c530b854b4815f5d493d7ccceb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 16/82] fix: bound tolerance of BZ reduction by cell volume of
 grid

---
 c/recgrid.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/c/recgrid.c b/c/recgrid.c
index f7fe5bf..338203f 100644
--- a/c/recgrid.c
+++ b/c/recgrid.c
@@ -34,6 +34,7 @@
 
 #include "recgrid.h"
 
+#include <math.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -191,7 +192,7 @@ int64_t recgrid_rotate_bz_grid_index(
 /* Note: Tolerance in squared distance. */
 double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
     int64_t i, j;
-    double tolerance;
+    double tolerance, det;
     double length[3];
     double reclatQ[3][3];
 
@@ -210,10 +211,19 @@ double recgrid_get_tolerance_for_BZ_reduction(const RecgridBZGrid *bzgrid) {
         }
         length[i] /= bzgrid->D_diag[i] * bzgrid->D_diag[i];
     }
-    /* The shortest vector is used because the vectors can be very anisotropic */
-    /* for generalized regular grids. */
-    tolerance = length[0];
-    for (i = 1; i < 3; i++) {
+    /* The shortest length is used because the vectors can be very anisotropic */
+    /* for generalized regular grids. When the vectors are far from reduced, */
+    /* the length is represented by that of cube of the same volume. */
+    det = reclatQ[0][0] * (reclatQ[1][1] * reclatQ[2][2] -
+                           reclatQ[1][2] * reclatQ[2][1]) -
+          reclatQ[0][1] * (reclatQ[1][0] * reclatQ[2][2] -
+                           reclatQ[1][2] * reclatQ[2][0]) +
+          reclatQ[0][2] * (reclatQ[1][0] * reclatQ[2][1] -
+                           reclatQ[1][1] * reclatQ[2][0]);
+    det = fabs(det) /
+          (bzgrid->D_diag[0] * bzgrid->D_diag[1] * bzgrid->D_diag[2]);
+    tolerance = pow(det, 2.0 / 3);
+    for (i = 0; i < 3; i++) {
         if (tolerance > length[i]) {
             tolerance = length[i];
         }
-- 
2.43.0


From dc3c0ba852cf5b9769c40f0d40ff7edc46bda2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 17/82] fix: estimate number of fc2 snapshots with phonon
 supercell

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 3a644bf..d79932f 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1428,7 +1428,7 @@ class Phono3py:
 
                 _number_of_snapshots = (
                     SymfcFCSolver(
-                        self._supercell, self._symmetry
+                        self._phonon_supercell, self._phonon_supercell_symmetry
                     ).estimate_numbers_of_supercells(orders=[2])[2]
                     * 2
                 )
-- 
2.43.0


From a9332fa435efe4c827710cb491743f6c350b92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:40 +0000
Subject: [PATCH 18/82] fix: include first displacements in displacements of
 pairs

---
 phono3py/api_phono3py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index d79932f..383f13a 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -870,7 +870,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] += disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
-- 
2.43.0


From 028ab5ac4a90803f723712f7ff37e6d63b1daadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 19/82] fix: use calculator found in yaml file for fc2 forces

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..f44279b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From 2ee8e6d6280c3f775161ddcdc0cb2b5088956f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 20/82] fix: allow missing supercell energies of type-2 dataset
 in params file

---
 phono3py/cui/create_force_sets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index f44279b..5a9f073 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -476,9 +476,10 @@ def _set_forces_and_nac_params(
         ph3py_yaml.dataset["forces"] = np.array(
             calc_dataset_fc3["forces"], dtype="double", order="C"
         )
-        ph3py_yaml.dataset["supercell_energies"] = np.array(
-            calc_dataset_fc3["supercell_energies"], dtype="double"
-        )
+        if "supercell_energies" in calc_dataset_fc3:
+            ph3py_yaml.dataset["supercell_energies"] = np.array(
+                calc_dataset_fc3["supercell_energies"], dtype="double"
+            )
         if len(ph3py_yaml.dataset["forces"]) != len(
             ph3py_yaml.dataset["displacements"]
         ):
@@ -498,9 +499,10 @@ def _set_forces_and_nac_params(
             ph3py_yaml.phonon_dataset["forces"] = np.array(
                 calc_dataset_fc2["forces"], dtype="double", order="C"
             )
-            ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
-                calc_dataset_fc2["supercell_energies"], dtype="double"
-            )
+            if "supercell_energies" in calc_dataset_fc2:
+                ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
+                    calc_dataset_fc2["supercell_energies"], dtype="double"
+                )
             if len(ph3py_yaml.phonon_dataset["forces"]) != len(
                 ph3py_yaml.phonon_dataset["displacements"]
             ):
-- 
2.43.0


From 264db241f2950c5ddc31d8d2501f170e6cda21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 21/82] fix: respect filename in writing type-2 forces

---
 phono3py/file_IO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..cc2800b 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -213,13 +213,13 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
         if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc2 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc2
-            write_FORCE_SETS(dataset, filename="FORCES_FC2")
+            write_FORCE_SETS(dataset, filename=filename)
 
     if fp is None:
         w.close()
@@ -245,13 +245,13 @@ def write_FORCES_FC3(
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
         if "forces" in disp_dataset:
-            write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc3 is None:
                 raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc3
-            write_FORCE_SETS(dataset, filename="FORCES_FC3")
+            write_FORCE_SETS(dataset, filename=filename)
 
 
 def _write_FORCES_FC3_typeI(
-- 
2.43.0


From fc9e1954aa32442c0ab50cfc86425693ad482cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 22/82] fix: allow pairs excluded by cutoff to be without
 forces

---
 phono3py/api_phono3py.py    |  4 +++-
 phono3py/phonon3/dataset.py | 10 ++++------
 phono3py/phonon3/fc3.py     |  6 +++++-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 383f13a..550029c 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2596,7 +2596,9 @@ class Phono3py:
                 count += 1
             for disp1 in self._dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    values[count] = disp2[type1_target]
+                    # Pairs excluded by cutoff distance can be without data.
+                    if type1_target in disp2 or disp2.get("included", True):
+                        values[count] = disp2[type1_target]
                     count += 1
             return values
         return None
diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..ca84f8c 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -84,14 +84,12 @@ def get_displacements_and_forces_fc3(
 
         for disp1 in disp_dataset["first_atoms"]:
             for disp2 in disp1["second_atoms"]:
-                if "included" in disp2:
-                    if disp2["included"]:
-                        indices.append(count)
-                else:
+                included = disp2.get("included", True)
+                if included:
                     indices.append(count)
                 displacements[count, disp1["number"]] = disp1["displacement"]
                 displacements[count, disp2["number"]] = disp2["displacement"]
-                if "forces" in disp2:
+                if included and "forces" in disp2:
                     forces_count += 1
                     forces[count] = disp2["forces"]
                 count += 1
@@ -100,7 +98,7 @@ def get_displacements_and_forces_fc3(
             forces = None
         else:
             forces = np.array(forces[indices], dtype="double", order="C")
-            assert forces_count == count
+            assert forces_count == len(indices)
 
         displacements = np.array(displacements[indices], dtype="double", order="C")
         return displacements, forces
diff --git a/phono3py/phonon3/fc3.py b/phono3py/phonon3/fc3.py
index b0587e6..5440acd 100644
--- a/phono3py/phonon3/fc3.py
+++ b/phono3py/phonon3/fc3.py
@@ -424,7 +424,11 @@ def _get_constrained_fc2(
             )
 
             disps2.append(disps_second["displacement"])
-            sets_of_forces.append(disps_second["forces"] - forces1)
+            if "forces" in disps_second or disps_second.get("included", True):
+                forces2 = disps_second["forces"]
+            else:  # Pairs excluded by cutoff distance can be without forces.
+                forces2 = np.zeros_like(forces1)
+            sets_of_forces.append(forces2 - forces1)
 
         solve_force_constants(
             fc2, atom2, disps2, sets_of_forces, supercell, bond_sym, symprec
-- 
2.43.0


From b4545412eb4fe5b61f38ef5017c4aebc216d95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 23/82] fix: check number of forces and energies set to dataset

---
 phono3py/api_phono3py.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 550029c..2580ff1 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2607,6 +2607,12 @@ class Phono3py:
         self, values, target: Literal["forces", "supercell_energies"]
     ):
         if "first_atoms" in self._dataset:  # type-1
+            count = len(self._dataset["first_atoms"])
+            for disp1 in self._dataset["first_atoms"]:
+                count += len(disp1["second_atoms"])
+            self._check_shape_of_forces_energies(
+                values, target, count, len(self._supercell)
+            )
             count = 0
             for disp1 in self._dataset["first_atoms"]:
                 if target == "forces":
@@ -2624,10 +2630,28 @@ class Phono3py:
                         disp2["supercell_energy"] = float(values[count])
                     count += 1
         elif "displacements" in self._dataset or "forces" in self._dataset:  # type-2
+            if "displacements" in self._dataset:
+                self._check_shape_of_forces_energies(
+                    values,
+                    target,
+                    len(self._dataset["displacements"]),
+                    len(self._supercell),
+                )
             self._dataset[target] = np.array(values, dtype="double", order="C")
         else:
             raise RuntimeError("Set of FC3 displacements is not available.")
 
+    def _check_shape_of_forces_energies(
+        self,
+        values,
+        target: Literal["forces", "supercell_energies"],
+        num_scells: int,
+        natom: int,
+    ):
+        shape = (num_scells, natom, 3) if target == "forces" else (num_scells,)
+        if len(values) != num_scells or np.shape(values) != shape:
+            raise RuntimeError(f"Array shape of input {target} is incorrect.")
+
     def _get_phonon_forces_energies(
         self, target: Literal["forces", "supercell_energies"]
     ) -> Optional[np.ndarray]:
@@ -2661,6 +2685,12 @@ class Phono3py:
             raise RuntimeError("Dataset for fc2 does not exist.")
 
         if "first_atoms" in self._phonon_dataset:
+            self._check_shape_of_forces_energies(
+                values,
+                target,
+                len(self._phonon_dataset["first_atoms"]),
+                len(self._phonon_supercell),
+            )
             for disp, v in zip(self._phonon_dataset["first_atoms"], values):
                 if target == "forces":
                     disp[target] = np.array(v, dtype="double", order="C")
-- 
2.43.0


From 0b13e2e3631deb91d0367472c18ca21e708f04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 24/82] fix: store whether pairs with forces are within cutoff
 in params file

---
 phono3py/interface/phono3py_yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..cb821bc 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -247,6 +247,8 @@ class Phono3pyYamlLoader(PhonopyYamlLoaderBase):
             second_atom_dict["id"] = d2_id
         if "pair_distance" in d2:
             second_atom_dict["pair_distance"] = d2["pair_distance"]
+        if "included" in d2:
+            second_atom_dict["included"] = d2["included"]
         if "supercell_energy" in d2:
             second_atom_dict["supercell_energy"] = d2["supercell_energy"]
         disp2_id += 1
@@ -557,6 +559,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
                 lines.append("    pair_distance: %.8f" % dataset2[j]["pair_distance"])
+                if "included" in dataset2[j]:
+                    included = dataset2[j]["included"]
+                    lines.append("    included: %s" % ("true" if included else "false"))
                 lines.append("    displacement:")
                 lines.append(
                     "      [ %19.16f, %19.16f, %19.16f ]"
-- 
2.43.0


From f63599374075b0390794af59005128265040cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 25/82] fix: write forces given explicitly also for type-2
 dataset

---
 phono3py/file_IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index cc2800b..a9272fe 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -212,7 +212,7 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
             for forces in force_set:
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
-        if "forces" in disp_dataset:
+        if "forces" in disp_dataset and forces_fc2 is None:
             write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc2 is None:
@@ -244,7 +244,7 @@ def write_FORCES_FC3(
         else:
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
-        if "forces" in disp_dataset:
+        if "forces" in disp_dataset and forces_fc3 is None:
             write_FORCE_SETS(disp_dataset, filename=filename)
         else:
             if forces_fc3 is None:
-- 
2.43.0


From e54469eecfcdba9f54980093183ce539dc9457aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 26/82] fix: use compact layout in symmetrization of compact fc
 by Phono3py

---
 phono3py/api_phono3py.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 2580ff1..dadd4f8 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -48,6 +48,7 @@ from phonopy.harmonic.displacement import (
 )
 from phonopy.harmonic.dynamical_matrix import DynamicalMatrix
 from phonopy.harmonic.force_constants import (
+    get_nsym_list_and_s2pp,
     set_permutation_symmetry,
     set_translational_invariance,
     symmetrize_compact_force_constants,
@@ -1614,9 +1615,15 @@ class Phono3py:
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
         if self._fc2 is not None:
-            set_permutation_symmetry(self._fc2)
+            if self._fc2.shape[0] == self._fc2.shape[1]:
+                set_permutation_symmetry(self._fc2)
+            else:
+                self._fc2[:] = (self._fc2 + self._get_transposed_compact_fc2()) / 2
         if self._fc3 is not None:
-            set_permutation_symmetry_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_permutation_symmetry_fc3(self._fc3)
+            else:
+                set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1626,9 +1633,27 @@ class Phono3py:
 
         """
         if self._fc2 is not None:
-            set_translational_invariance(self._fc2)
+            if self._fc2.shape[0] == self._fc2.shape[1]:
+                set_translational_invariance(self._fc2)
+            else:
+                for _ in range(2):
+                    self._fc2[:] = self._get_transposed_compact_fc2()
+                    self._fc2 -= self._fc2.mean(axis=1, keepdims=True)
         if self._fc3 is not None:
-            set_translational_invariance_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_translational_invariance_fc3(self._fc3)
+            else:
+                set_translational_invariance_compact_fc3(self._fc3, self._primitive)
+
+    def _get_transposed_compact_fc2(self) -> np.ndarray:
+        """Return compact fc2 with atom and Cartesian indices exchanged."""
+        primitive = self._phonon_primitive
+        permutations = primitive.atomic_permutations
+        s2pp_map, nsym_list = get_nsym_list_and_s2pp(
+            primitive.s2p_map, primitive.p2p_map, permutations
+        )
+        i_trans = permutations[nsym_list][:, primitive.p2s_map].T
+        return self._fc2[s2pp_map[None, :], i_trans].transpose(0, 1, 3, 2)
 
     def run_imag_self_energy(
         self,
-- 
2.43.0


From 2dbbb4a53db64d478492792a116a408ac6025783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 27/82] fix: symmetrize compact fc3 read from file in its
 layout

---
 phono3py/cui/create_force_constants.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index f6518a5..cd50c6e 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -71,7 +71,9 @@ from phono3py.interface.fc_calculator import extract_fc2_fc3_calculators
 from phono3py.interface.phono3py_yaml import Phono3pyYaml
 from phono3py.phonon3.dataset import forces_in_dataset
 from phono3py.phonon3.fc3 import (
+    set_permutation_symmetry_compact_fc3,
     set_permutation_symmetry_fc3,
+    set_translational_invariance_compact_fc3,
     set_translational_invariance_fc3,
     show_drift_fc3,
 )
@@ -392,8 +394,12 @@ def _read_phono3py_fc3(phono3py: Phono3py, symmetrize_fc3r, input_filename, log_
         sys.exit(1)
 
     if symmetrize_fc3r:
-        set_translational_invariance_fc3(fc3)
-        set_permutation_symmetry_fc3(fc3)
+        if fc3.shape[0] == fc3.shape[1]:
+            set_translational_invariance_fc3(fc3)
+            set_permutation_symmetry_fc3(fc3)
+        else:
+            set_translational_invariance_compact_fc3(fc3, phono3py.primitive)
+            set_permutation_symmetry_compact_fc3(fc3, phono3py.primitive)
 
     phono3py.fc3 = fc3
 
-- 
2.43.0


From 77a8213988b640f4e43bfbe560075db672fa6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 28/82] fix: compute all band exchanges in symmetrization of
 fc3 in q-space

---
 c/interaction.c | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..ba49ff6 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -60,8 +60,7 @@ static void real_to_normal(
     const double cutoff_frequency, const int64_t triplet_index,
     const int64_t num_triplets, const int64_t openmp_per_triplets);
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -158,8 +157,8 @@ void itr_get_interaction_at_triplet(
             }
         }
         real_to_normal_sym_q(
-            fc3_normal_squared, g_pos, num_g_pos, freqs, eigvecs, fc3,
-            is_compact_fc3, q_vecs, /* q0, q1, q2 */
+            fc3_normal_squared, freqs, eigvecs, fc3, is_compact_fc3,
+            q_vecs, /* q0, q1, q2 */
             atom_triplets, masses, band_indices, num_band0, num_band,
             cutoff_frequency, triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < 3; j++) {
@@ -223,8 +222,7 @@ static void real_to_normal(
 }
 
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -236,10 +234,26 @@ static void real_to_normal_sym_q(
     int64_t band_ex[3];
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
+    int64_t *all_bands;
+    int64_t(*g_pos_all)[4];
 
     fc3_normal_squared_ex =
         (double *)malloc(sizeof(double) * num_band * num_band * num_band);
 
+    /* All band combinations are necessary to exchange bands. */
+    all_bands = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    g_pos_all = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_band * num_band *
+                                      num_band);
+    for (i = 0; i < num_band; i++) {
+        all_bands[i] = i;
+    }
+    for (i = 0; i < num_band * num_band * num_band; i++) {
+        g_pos_all[i][0] = i / (num_band * num_band);
+        g_pos_all[i][1] = (i / num_band) % num_band;
+        g_pos_all[i][2] = i % num_band;
+        g_pos_all[i][3] = i;
+    }
+
     for (i = 0; i < num_band0 * num_band * num_band; i++) {
         fc3_normal_squared[i] = 0;
     }
@@ -251,12 +265,13 @@ static void real_to_normal_sym_q(
             }
         }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
-            freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
-            freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
-            eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
-            is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
+            fc3_normal_squared_ex, (const int64_t(*)[4])g_pos_all,
+            num_band * num_band * num_band, freqs[index_exchange[i][0]],
+            freqs[index_exchange[i][1]], freqs[index_exchange[i][2]],
+            eigvecs[index_exchange[i][0]], eigvecs[index_exchange[i][1]],
+            eigvecs[index_exchange[i][2]], fc3, is_compact_fc3,
+            q_vecs_ex, /* q0, q1, q2 */
+            atom_triplets, masses, all_bands, num_band, cutoff_frequency,
             triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < num_band0; j++) {
             for (k = 0; k < num_band; k++) {
@@ -278,4 +293,9 @@ static void real_to_normal_sym_q(
     }
 
     free(fc3_normal_squared_ex);
+    fc3_normal_squared_ex = NULL;
+    free(all_bands);
+    all_bands = NULL;
+    free(g_pos_all);
+    g_pos_all = NULL;
 }
-- 
2.43.0


From bd727b316c29e8770aace1096de606b1fd028fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 29/82] fix: include all umklapp vectors in prephase of Python
 fc3 transformation

---
 phono3py/phonon3/real_to_reciprocal.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index cafa700..4793bfb 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -69,10 +69,7 @@ class RealToReciprocal:
 
     def _real_to_reciprocal(self):
         num_patom = len(self._primitive)
-        sum_triplets = np.where(
-            np.all(self._triplet != 0, axis=0), self._triplet.sum(axis=0), 0
-        )
-        sum_q = sum_triplets.astype("double") / self._mesh
+        sum_q = self._triplet.sum(axis=0).astype("double") / self._mesh
         for i in range(num_patom):
             for j in range(num_patom):
                 for k in range(num_patom):
-- 
2.43.0


From d7e33e4862e2750406b6a5316cf1d8f7513de76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 30/82] fix: use q-points of generalized regular grid in Python
 interaction strength

---
 phono3py/phonon3/interaction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 1dbc7d9..00216e3 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -994,8 +994,10 @@ class Interaction:
         )
 
     def _run_py(self):
+        # q-points are passed instead of grid addresses because grid addresses
+        # of generalized regular grid are not simply divided by mesh numbers.
         r2r = RealToReciprocal(
-            self._fc3, self._primitive, self.mesh_numbers, symprec=self._symprec
+            self._fc3, self._primitive, np.ones(3), symprec=self._symprec
         )
         r2n = ReciprocalToNormal(
             self._primitive,
@@ -1007,7 +1009,9 @@ class Interaction:
 
         for i, grid_triplet in enumerate(self._triplets_at_q):
             print("%d / %d" % (i + 1, len(self._triplets_at_q)))
-            r2r.run(self._bz_grid.addresses[grid_triplet])
+            r2r.run(
+                np.dot(self._bz_grid.addresses[grid_triplet], self._bz_grid.QDinv.T)
+            )
             fc3_reciprocal = r2r.get_fc3_reciprocal()
             for gp in grid_triplet:
                 self._run_phonon_solver_py(gp)
-- 
2.43.0


From 0d62a7672800adaac1dc6cfd0381d4e0d5f0cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 31/82] fix: support compact fc3 in Python interaction strength

---
 phono3py/phonon3/real_to_reciprocal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index 4793bfb..a536687 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -83,7 +83,10 @@ class RealToReciprocal:
     def _real_to_reciprocal_elements(self, patom_indices):
         num_satom = len(self._s2p_map)
         pi = patom_indices
-        i = self._p2s_map[pi[0]]
+        if len(self._fc3) == num_satom:
+            i = self._p2s_map[pi[0]]
+        else:  # compact fc3
+            i = pi[0]
         dtype = "c%d" % (np.dtype("double").itemsize * 2)
         fc3_reciprocal = np.zeros((3, 3, 3), dtype=dtype)
         for j in range(num_satom):
-- 
2.43.0


From 7c7e8f3df9c03dde2955c63f9b3a920e6da07783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 32/82] fix: re-solve Gamma point in set_grid_point also
 without mesh symmetry

---
 phono3py/phonon3/interaction.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 00216e3..0fc81fe 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -618,21 +618,21 @@ class Interaction:
                     ir_map_at_q,
                 ) = get_triplets_at_q(grid_point, self._bz_grid)
 
-            # Re-calculate phonon at Gamma-point when q-direction is given.
-            if (self._bz_grid.addresses[grid_point] == 0).all():
-                self.run_phonon_solver_at_gamma(is_nac=True)
-            elif self._done_nac_at_gamma:
-                if self._nac_q_direction is None:
-                    self.run_phonon_solver_at_gamma()
-                else:
-                    msg = (
-                        "Phonons at Gamma has been calculated with NAC, "
-                        "but ph-ph interaction is expected to calculate at "
-                        "non-Gamma point. Setting Interaction.nac_q_direction = "
-                        "None, can avoid raising this exception to re-run phonon "
-                        "calculation at Gamma without NAC."
-                    )
-                    raise RuntimeError(msg)
+        # Re-calculate phonon at Gamma-point when q-direction is given.
+        if (self._bz_grid.addresses[grid_point] == 0).all():
+            self.run_phonon_solver_at_gamma(is_nac=True)
+        elif self._done_nac_at_gamma:
+            if self._nac_q_direction is None:
+                self.run_phonon_solver_at_gamma()
+            else:
+                msg = (
+                    "Phonons at Gamma has been calculated with NAC, "
+                    "but ph-ph interaction is expected to calculate at "
+                    "non-Gamma point. Setting Interaction.nac_q_direction = "
+                    "None, can avoid raising this exception to re-run phonon "
+                    "calculation at Gamma without NAC."
+                )
+                raise RuntimeError(msg)
 
         reciprocal_lattice = np.linalg.inv(self._primitive.cell)
         for triplet in triplets_at_q:
-- 
2.43.0


From e35613fb43d1817e0a32a8329e11cdf1a112f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 33/82] fix: discard phonons at Gamma of previous dynamical
 matrix

---
 phono3py/phonon3/interaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 0fc81fe..639e76c 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -1049,6 +1049,8 @@ class Interaction:
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
         gp_Gamma = self._bz_grid.gp_Gamma
+        self._frequencies_at_gamma = None  # Of previous dynamical matrix
+        self._eigenvectors_at_gamma = None
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
         self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
-- 
2.43.0


From 82eb4a17773a8d1b2e2149ac3c49d70790fc631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 34/82] fix: restore phonons at Gamma solved with q-direction
 by phonon solver

---
 phono3py/phonon3/interaction.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 639e76c..6e56079 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -158,6 +158,7 @@ class Interaction:
 
         self._phonon_done = None
         self._done_nac_at_gamma = False  # Phonon at Gamma is calculated with NAC.
+        self._is_gamma_directional = False  # Stored Gamma depends on q-direction.
         self._frequencies = None
         self._eigenvectors = None
         self._frequencies_at_gamma = None
@@ -633,6 +634,8 @@ class Interaction:
                     "calculation at Gamma without NAC."
                 )
                 raise RuntimeError(msg)
+        elif self._is_gamma_directional and self._nac_q_direction is None:
+            self.run_phonon_solver_at_gamma()
 
         reciprocal_lattice = np.linalg.inv(self._primitive.cell)
         for triplet in triplets_at_q:
@@ -742,6 +745,7 @@ class Interaction:
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
             self._done_nac_at_gamma = False
+            self._is_gamma_directional = False
             return
 
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
@@ -980,6 +984,11 @@ class Interaction:
         self._g_zero = g_zero
 
     def _run_phonon_solver_c(self, grid_points):
+        gp_Gamma = self._bz_grid.gp_Gamma
+        if self._phonon_done[gp_Gamma] == 0 and np.any(
+            np.array(grid_points) == gp_Gamma
+        ):
+            self._is_gamma_directional = self._nac_q_direction is not None
         run_phonon_solver_c(
             self._dm,
             self._frequencies,
-- 
2.43.0


From cf7cb37d5c68a4a061c27bb81ffe37a7871a5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 35/82] fix: accept array_like in functions of tetrahedron
 method

---
 phono3py/other/tetrahedron_method.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/tetrahedron_method.py b/phono3py/other/tetrahedron_method.py
index 001f851..e4889b9 100644
--- a/phono3py/other/tetrahedron_method.py
+++ b/phono3py/other/tetrahedron_method.py
@@ -198,4 +198,8 @@ def get_tetrahedra_relative_grid_address(microzone_lattice):
 
 def _check_ndarray_state(array, dtype):
     """Check contiguousness and dtype."""
-    return array.dtype == dtype and array.flags.c_contiguous
+    return (
+        isinstance(array, np.ndarray)
+        and array.dtype == dtype
+        and array.flags.c_contiguous
+    )
-- 
2.43.0


From 907abc95b3e80851ade9ae8f34b8af304e65496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 36/82] fix: use q-direction only at Gamma in NAC by Wang et
 al.

---
 c/phonon.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..637f08b 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -94,6 +94,7 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
                            const double dielectric[3][3],
                            const double reciprocal_lattice[3][3],
                            const double *q_direction, const double nac_factor);
+static int64_t is_gamma(const int64_t (*grid_address)[3], const int64_t gp);
 static int64_t needs_nac(const double (*born)[3][3],
                          const int64_t (*grid_address)[3], const int64_t gp,
                          const double *q_direction);
@@ -210,7 +211,9 @@ static void get_undone_phonons(
         get_dynamical_matrix(eigenvectors + num_band * num_band * gp, q, fc2,
                              masses_fc2, p2s_fc2, s2p_fc2, multi_fc2, num_patom,
                              num_satom, svecs_fc2, is_nac, born, dielectric,
-                             reciprocal_lattice, q_direction, nac_factor);
+                             reciprocal_lattice,
+                             is_gamma(grid_address, gp) ? q_direction : NULL,
+                             nac_factor);
     }
 
 #ifndef NO_INCLUDE_LAPACKE
@@ -442,14 +445,18 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
     dym_get_charge_sum(charge_sum, num_patom, dielectric_factor, q_cart, born);
 }
 
+static int64_t is_gamma(const int64_t (*grid_address)[3], const int64_t gp) {
+    return grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
+           grid_address[gp][2] == 0;
+}
+
 static int64_t needs_nac(const double (*born)[3][3],
                          const int64_t (*grid_address)[3], const int64_t gp,
                          const double *q_direction) {
     int64_t is_nac;
 
     if (born) {
-        if (grid_address[gp][0] == 0 && grid_address[gp][1] == 0 &&
-            grid_address[gp][2] == 0 && q_direction == NULL) {
+        if (is_gamma(grid_address, gp) && q_direction == NULL) {
             is_nac = 0;
         } else {
             is_nac = 1;
-- 
2.43.0


From 8b98d5f8bba96b34ef422119c199c52c402997c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 37/82] fix: use positive mesh numbers for diagonal grid matrix
 of negative elements

---
 phono3py/phonon/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index bcb9f68..4bb6c72 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -791,7 +791,7 @@ class GridMatrix:
         # If grid_matrix is a diagonal matrix, use it as D matrix.
         gm_diag = np.diagonal(_grid_matrix)
         if (np.diag(gm_diag) == _grid_matrix).all() and not force_SNF:
-            self._D_diag = np.array(gm_diag, dtype="int64")
+            self._D_diag = np.array(np.abs(gm_diag), dtype="int64")
         else:
             import phono3py._recgrid as recgrid
 
-- 
2.43.0


From fa74c3e21e0d56a1ff23783c34c7df250c1f4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 38/82] fix: write scalar gamma_isotope and ave_pp of one band
 without compression

---
 phono3py/file_IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index a9272fe..50f213c 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1009,17 +1009,23 @@ def write_kappa_to_hdf5(
         if gamma is not None:
             w.create_dataset("gamma", data=gamma, compression=compression)
         if gamma_isotope is not None:
-            w.create_dataset(
-                "gamma_isotope", data=gamma_isotope, compression=compression
-            )
+            if np.ndim(gamma_isotope) == 0:
+                w.create_dataset("gamma_isotope", data=gamma_isotope)
+            else:
+                w.create_dataset(
+                    "gamma_isotope", data=gamma_isotope, compression=compression
+                )
         if gamma_N is not None:
             w.create_dataset("gamma_N", data=gamma_N, compression=compression)
         if gamma_U is not None:
             w.create_dataset("gamma_U", data=gamma_U, compression=compression)
         if averaged_pp_interaction is not None:
-            w.create_dataset(
-                "ave_pp", data=averaged_pp_interaction, compression=compression
-            )
+            if np.ndim(averaged_pp_interaction) == 0:
+                w.create_dataset("ave_pp", data=averaged_pp_interaction)
+            else:
+                w.create_dataset(
+                    "ave_pp", data=averaged_pp_interaction, compression=compression
+                )
         if qpoint is not None:
             w.create_dataset("qpoint", data=qpoint, compression=compression)
         if weight is not None:
-- 
2.43.0


From b25e8a8bfda5f12993ac34bff327681fee55598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 39/82] fix: write gamma_detail of each sigma

---
 phono3py/conductivity/rta.py   | 28 +++++++++++++++++++---------
 phono3py/conductivity/utils.py | 10 +++++-----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..89edcf3 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -137,9 +137,16 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_N = gamma_N
         self._gamma_U = gamma_U
 
-    def get_gamma_detail_at_q(self):
-        """Return contribution of each triplet to gamma at current q-point."""
-        return self._gamma_detail_at_q
+    def get_gamma_detail_at_q(self, i_sigma=-1):
+        """Return contribution of each triplet to gamma at current q-point.
+
+        i_sigma : int, optional
+            Index of sigma. Default is -1, i.e., that of the last sigma.
+
+        """
+        if self._gamma_detail_at_q is None:
+            return None
+        return self._gamma_detail_at_q[i_sigma]
 
     def get_number_of_ignored_phonon_modes(self):
         """Return number of ignored phonon modes."""
@@ -291,12 +298,15 @@ class ConductivityRTABase(ConductivityBase):
             # So this is allocated each time.
             if self._is_gamma_detail:
                 num_temp = len(self._temperatures)
-                self._gamma_detail_at_q = np.empty(
-                    ((num_temp,) + self._pp.get_interaction_strength().shape),
-                    dtype="double",
-                    order="C",
+                if j == 0:
+                    self._gamma_detail_at_q = []
+                self._gamma_detail_at_q.append(
+                    np.zeros(
+                        ((num_temp,) + self._pp.get_interaction_strength().shape),
+                        dtype="double",
+                        order="C",
+                    )
                 )
-                self._gamma_detail_at_q[:] = 0
 
             if self._log_level:
                 print("Calculating collisions at temperatures...")
@@ -309,7 +319,7 @@ class ConductivityRTABase(ConductivityBase):
                     self._gamma_N[j, k, i] = g_N
                     self._gamma_U[j, k, i] = g_U
                 if self._is_gamma_detail:
-                    self._gamma_detail_at_q[k] = (
+                    self._gamma_detail_at_q[j][k] = (
                         self._collision.get_detailed_imag_self_energy()
                     )
 
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 9dfdc43..6c8d7ca 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -354,7 +354,6 @@ class ConductivityRTAWriter:
         verbose: bool = True,
     ):
         """Write detailed Gamma values to hdf5 files."""
-        gamma_detail = br.get_gamma_detail_at_q()
         temperatures = br.temperatures
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -366,12 +365,12 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
                     bz_grid=bz_grid,
-                    gamma_detail=gamma_detail,
+                    gamma_detail=br.get_gamma_detail_at_q(j),
                     grid_point=gp,
                     triplet=triplets,
                     weight=weights,
@@ -383,8 +382,9 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
-                for k, bi in enumerate(interaction.get_band_indices()):
+            for j, sigma in enumerate(sigmas):
+                gamma_detail = br.get_gamma_detail_at_q(j)
+                for k, bi in enumerate(interaction.band_indices):
                     write_gamma_detail_to_hdf5(
                         temperatures,
                         mesh,
-- 
2.43.0


From 27786122b8fc8895f53932f063be395448da6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 40/82] fix: refuse gamma of different mesh numbers or
 temperatures

---
 phono3py/conductivity/utils.py | 22 ++++++++++++++++++++++
 phono3py/file_IO.py            |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 6c8d7ca..85f2d28 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -763,6 +763,8 @@ def set_gamma_from_file(
         if data:
             if verbose:
                 print("Read data from %s." % full_filename)
+            if not _is_same_temperatures(data, temperatures, full_filename, verbose):
+                return False
             gamma[j] = data["gamma"]
             if "gamma_isotope" in data:
                 gamma_iso[j] = data["gamma_isotope"]
@@ -789,6 +791,10 @@ def set_gamma_from_file(
                 if data_gp:
                     if verbose:
                         print("Read data from %s." % full_filename)
+                    if not _is_same_temperatures(
+                        data_gp, temperatures, full_filename, verbose
+                    ):
+                        return False
                     gamma[j, :, i] = data_gp["gamma"]
                     if "gamma_iso" in data_gp:
                         gamma_iso[j, i] = data_gp["gamma_iso"]
@@ -817,6 +823,10 @@ def set_gamma_from_file(
                         if data_band:
                             if verbose:
                                 print("Read data from %s." % full_filename)
+                            if not _is_same_temperatures(
+                                data_band, temperatures, full_filename, verbose
+                            ):
+                                return False
                             gamma[j, :, i, bi] = data_band["gamma"]
                             if "gamma_iso" in data_band:
                                 gamma_iso[j, i, bi] = data_band["gamma_iso"]
@@ -843,6 +853,18 @@ def set_gamma_from_file(
         return False
 
 
+def _is_same_temperatures(data, temperatures, filename, verbose) -> bool:
+    """Return whether gamma in file was calculated at the temperatures required."""
+    temps = data.get("temperature")
+    if temps is None or (
+        np.shape(temps) == np.shape(temperatures) and np.allclose(temps, temperatures)
+    ):
+        return True
+    if verbose:
+        print("Temperatures in %s are different from those required." % filename)
+    return False
+
+
 class ShowCalcProgress:
     """Show calculation progress."""
 
diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 50f213c..0d2952e 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1102,8 +1102,11 @@ def read_gamma_from_hdf5(
     read_data = {}
 
     with h5py.File(full_filename, "r") as f:
+        # Different mesh numbers can give the same filename, e.g., m1111.
+        if "mesh" in f.keys() and not np.array_equal(f["mesh"][:], mesh):
+            return None, full_filename
         read_data["gamma"] = f["gamma"][:]
-        for key in ("gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
+        for key in ("temperature", "gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
             if key in f.keys():
                 if len(f[key].shape) > 0:
                     read_data[key] = f[key][:]
-- 
2.43.0


From 33e60f3c80bdc3fe138e93df0a4584cbfa5d94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 41/82] fix: write joint-DOS at all temperatures

---
 phono3py/file_IO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 0d2952e..57113b8 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -523,8 +523,8 @@ def write_joint_dos(
             is_mesh_symmetry=is_mesh_symmetry,
         )
     else:
-        for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
+        jdos_filenames = [
+            _write_joint_dos_at_t(
                 gp,
                 mesh,
                 frequencies,
@@ -534,6 +534,9 @@ def write_joint_dos(
                 filename=filename,
                 is_mesh_symmetry=is_mesh_symmetry,
             )
+            for jdos_at_t, t in zip(jdos, temperatures)
+        ]
+        return '", "'.join(jdos_filenames)
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From 7cc201ca280ef17ef639e0da71534ec09e048235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 42/82] fix: Phono3pyIsotope.set_sigma calls method that does
 not exist

---
 phono3py/api_isotope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_isotope.py b/phono3py/api_isotope.py
index f5df86a..95af8e9 100644
--- a/phono3py/api_isotope.py
+++ b/phono3py/api_isotope.py
@@ -161,4 +161,4 @@ class Phono3pyIsotope:
 
     def set_sigma(self, sigma):
         """Set sigma. None means tetrahedron method."""
-        self._iso.set_sigma(sigma)
+        self._iso.sigma = sigma
-- 
2.43.0


From bc0750c116c9802023118e9f89099e76e753c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 43/82] fix: band indices and cutoff frequency in Python
 isotope scattering

---
 phono3py/other/isotope.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..45ba6a1 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -346,9 +346,12 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i_band, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             ti_sum = 0.0
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
@@ -361,7 +364,9 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[
+                            gp, i_band, j
+                        ]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From 7b2b7d2600e869343ecf07f56abf188250a2f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 44/82] fix: band indices and logging in writing spectral
 functions

---
 phono3py/phonon3/spectral_function.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..fccc511 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -148,13 +148,13 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    interaction.band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
@@ -168,9 +168,9 @@ def run_spectral_function(
                     filename=output_filename,
                 )
 
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From f7795cc26692681146054852489d7b60a6dbd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 45/82] fix: output filename is ignored in writing real
 self-energy in hdf5

---
 phono3py/file_IO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 57113b8..89836d1 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -637,6 +637,8 @@ def write_real_self_energy_to_hdf5(
         full_filename += "-e" + _del_zeros(epsilon)
     else:
         full_filename += "-e%.3e" % epsilon
+    if filename is not None:
+        full_filename += f".{filename}"
     full_filename += ".hdf5"
 
     with h5py.File(full_filename, "w") as w:
-- 
2.43.0


From ee5cbd902f417b54d5e1ee59e0dba94ac5ba887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 46/82] fix: refuse ph-ph interaction strength of inconsistent
 shape

---
 phono3py/phonon3/interaction.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 6e56079..df6ab9f 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -575,6 +575,13 @@ class Interaction:
 
     def set_interaction_strength(self, pp_strength, g_zero=None):
         """Set interaction strength."""
+        num_band = len(self._primitive) * 3
+        shape = (len(self._triplets_at_q), len(self._band_indices), num_band, num_band)
+        if pp_strength.shape != shape:
+            raise RuntimeError(
+                "Shape of ph-ph interaction strength is inconsistent with triplets "
+                "and bands."
+            )
         self._interaction_strength = pp_strength
         self._g_zero = g_zero
 
-- 
2.43.0


From 7d3150e0eb6bcde9e3d465563810730f29fa39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 47/82] fix: refuse stored interaction strength and collision
 matrix of other mesh numbers

---
 phono3py/file_IO.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 89836d1..72f6e19 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -779,6 +779,7 @@ def write_collision_to_hdf5(
     full_filename = "collision" + suffix + ".hdf5"
     with h5py.File(full_filename, "w") as w:
         w.create_dataset("version", data=np.bytes_(__version__))
+        w.create_dataset("mesh", data=mesh)
         w.create_dataset("temperature", data=temperature)
         if gamma is not None:
             w.create_dataset("gamma", data=gamma)
@@ -1156,6 +1157,13 @@ def read_collision_from_hdf5(
             print("%s not found." % full_filename)
         return None
 
+    # Different mesh numbers can give the same filename, e.g., m1111.
+    with h5py.File(full_filename, "r") as f:
+        if "mesh" in f and not np.array_equal(f["mesh"][:], mesh):
+            if verbose:
+                print("Mesh numbers of %s are different." % full_filename)
+            return None
+
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
             temperatures = np.array(f["temperature"][:], dtype="double")
@@ -1234,6 +1242,7 @@ def write_pp_to_hdf5(
 
     with h5py.File(full_filename, "w") as w:
         w.create_dataset("version", data=np.bytes_(__version__))
+        w.create_dataset("mesh", data=mesh)
         if pp is not None:
             if g_zero is None:
                 w.create_dataset("pp", data=pp, compression=compression)
@@ -1320,6 +1329,12 @@ def read_pp_from_hdf5(
         return None
 
     with h5py.File(full_filename, "r") as f:
+        # Different mesh numbers can give the same filename, e.g., m1111.
+        if "mesh" in f and not np.array_equal(f["mesh"][:], mesh):
+            if verbose:
+                print("Mesh numbers of %s are different." % full_filename)
+            return None
+
         if "nonzero_pp" in f:
             nonzero_pp = f["nonzero_pp"][:]
             pp_shape = f["pp_shape"][:]
-- 
2.43.0


From bd1d531c889cc387bfb74c0ce18d65c541a5b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 48/82] fix: discard interaction made with previous force
 constants, masses, or bands

---
 phono3py/api_phono3py.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index dadd4f8..cb64760 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -346,6 +346,7 @@ class Phono3py:
     @fc3.setter
     def fc3(self, fc3):
         self._fc3 = fc3
+        self._interaction = None
 
     @property
     def fc2(self) -> Optional[np.ndarray]:
@@ -363,6 +364,7 @@ class Phono3py:
     @fc2.setter
     def fc2(self, fc2):
         self._fc2 = fc2
+        self._interaction = None
 
     @property
     def force_constants(self) -> Optional[np.ndarray]:
@@ -750,6 +752,7 @@ class Phono3py:
         else:
             self._band_indices = [np.array(bi, dtype="int64") for bi in band_indices]
         self._band_indices_flatten = np.hstack(self._band_indices).astype("int64")
+        self._interaction = None
 
     @property
     def masses(self) -> np.ndarray:
@@ -772,6 +775,9 @@ class Phono3py:
         p2p_map = self._phonon_primitive.p2p_map
         s_masses = p_masses[[p2p_map[x] for x in self._phonon_primitive.s2p_map]]
         self._phonon_supercell.masses = s_masses
+        self._interaction = None
+        self._supercells_with_displacements = None
+        self._phonon_supercells_with_displacements = None
 
     @property
     def supercells_with_displacements(self) -> list[PhonopyAtoms]:
@@ -1514,6 +1520,7 @@ class Phono3py:
 
         # Set fc2 and fc3
         self._fc3 = fc3
+        self._interaction = None
 
         # fc2 as obtained above will not be set when "|" in fc-calculator setting.
         if fc_calculator is not None and "|" in fc_calculator:
@@ -1576,6 +1583,7 @@ class Phono3py:
             symmetry=self._phonon_supercell_symmetry,
             log_level=self._log_level,
         )
+        self._interaction = None
 
         if fc_calculator is None or fc_calculator == "traditional":
             if symmetrize_fc2:
@@ -1602,6 +1610,7 @@ class Phono3py:
         """
         if fc3 is None:
             _fc3 = self._fc3
+            self._interaction = None
         else:
             _fc3 = fc3
         cutoff_fc3_by_zero(
@@ -1614,6 +1623,7 @@ class Phono3py:
 
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
+        self._interaction = None
         if self._fc2 is not None:
             if self._fc2.shape[0] == self._fc2.shape[1]:
                 set_permutation_symmetry(self._fc2)
@@ -1632,6 +1642,7 @@ class Phono3py:
         column.
 
         """
+        self._interaction = None
         if self._fc2 is not None:
             if self._fc2.shape[0] == self._fc2.shape[1]:
                 set_translational_invariance(self._fc2)
-- 
2.43.0


From 05c0164653d4b0401c89a299176cd43331a0cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 49/82] fix: discard detailed gammas of previous run

---
 phono3py/api_phono3py.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index cb64760..25de62a 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1766,6 +1766,7 @@ class Phono3py:
             (self._frequency_points, self._gammas, self._detailed_gammas) = vals
         else:
             self._frequency_points, self._gammas = vals
+            self._detailed_gammas = None
 
         if write_txt:
             self._write_imag_self_energy(output_filename=output_filename)
-- 
2.43.0


From 92b194adacd8e5ad8d0522fc0c3ddf62068b465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 50/82] fix: accept numpy integers and single precision values
 as sigmas

---
 phono3py/api_phono3py.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 25de62a..7a16374 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -38,6 +38,7 @@ from __future__ import annotations
 import copy
 import warnings
 from collections.abc import Sequence
+from numbers import Real
 from typing import Literal, Optional, Union
 
 import numpy as np
@@ -389,17 +390,12 @@ class Phono3py:
             self._sigmas = [
                 None,
             ]
-        elif isinstance(sigmas, float) or isinstance(sigmas, int):
+        elif isinstance(sigmas, Real):
             self._sigmas = [
                 float(sigmas),
             ]
         else:
-            self._sigmas = []
-            for s in sigmas:
-                if isinstance(s, float) or isinstance(s, int):
-                    self._sigmas.append(float(s))
-                elif s is None:
-                    self._sigmas.append(None)
+            self._sigmas = [None if s is None else float(s) for s in sigmas]
 
     @property
     def sigma_cutoff(self) -> Optional[float]:
-- 
2.43.0


From 67a8bde2f0a41703568d37fbf8ee7de4fe40fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 51/82] fix: keep dataset when type-2 dataset of wrong shape is
 refused

---
 phono3py/api_phono3py.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 7a16374..121355a 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -628,12 +628,17 @@ class Phono3py:
         elif "first_atoms" in dataset:
             self._dataset = copy.deepcopy(dataset)
         elif "displacements" in dataset:
+            previous_dataset = self._dataset
             self._dataset = {}
-            self.displacements = dataset["displacements"]
-            if "forces" in dataset:
-                self.forces = dataset["forces"]
-            if "supercell_energies" in dataset:
-                self.supercell_energies = dataset["supercell_energies"]
+            try:
+                self.displacements = dataset["displacements"]
+                if "forces" in dataset:
+                    self.forces = dataset["forces"]
+                if "supercell_energies" in dataset:
+                    self.supercell_energies = dataset["supercell_energies"]
+            except RuntimeError:
+                self._dataset = previous_dataset
+                raise
         else:
             raise RuntimeError("Data format of dataset is wrong.")
 
@@ -674,12 +679,17 @@ class Phono3py:
         elif "first_atoms" in dataset:
             self._phonon_dataset = copy.deepcopy(dataset)
         elif "displacements" in dataset:
+            previous_dataset = self._phonon_dataset
             self._phonon_dataset = {}
-            self.phonon_displacements = dataset["displacements"]
-            if "forces" in dataset:
-                self.phonon_forces = dataset["forces"]
-            if "supercell_energies" in dataset:
-                self.phonon_supercell_energies = dataset["supercell_energies"]
+            try:
+                self.phonon_displacements = dataset["displacements"]
+                if "forces" in dataset:
+                    self.phonon_forces = dataset["forces"]
+                if "supercell_energies" in dataset:
+                    self.phonon_supercell_energies = dataset["supercell_energies"]
+            except RuntimeError:
+                self._phonon_dataset = previous_dataset
+                raise
         else:
             raise RuntimeError("Data format of dataset is wrong.")
 
-- 
2.43.0


From 46b39548e89cffbb1ef5c687f628974c24666faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 52/82] fix: do not ignore phonon data silently before
 initialization of interaction

---
 phono3py/api_phono3py.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 121355a..b31d54d 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1187,6 +1187,12 @@ class Phono3py:
         """
         if self._interaction is not None:
             self._interaction.set_phonon_data(frequencies, eigenvectors, grid_address)
+        else:
+            msg = (
+                "Phono3py.init_phph_interaction has to be called "
+                "before running this method."
+            )
+            raise RuntimeError(msg)
 
     def get_phonon_data(self):
         """Get phonon frequencies and eigenvectors in Interaction instance.
-- 
2.43.0


From e6cd078ce6557fdb75388e8ec4b9efb7d566a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 53/82] fix: discard interaction strength of previous grid
 point or phonons

---
 phono3py/phonon3/interaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index df6ab9f..6d13ecd 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -676,6 +676,7 @@ class Interaction:
         else:
             self._triplets_map_at_q = None
             self._ir_map_at_q = None
+        self.delete_interaction_strength()
 
     def init_dynamical_matrix(
         self,
@@ -701,6 +702,7 @@ class Interaction:
             decimals=decimals,
         )
         self._allocate_phonon()
+        self.delete_interaction_strength()
 
     def set_phonon_data(self, frequencies, eigenvectors, bz_grid_addresses):
         """Set phonons on grid."""
@@ -720,6 +722,7 @@ class Interaction:
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
             self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
+            self.delete_interaction_strength()
 
     def run_phonon_solver(self, grid_points=None, solve_by_rotation=False):
         """Run phonon solver at BZ-grid points."""
-- 
2.43.0


From 47b08bbe82c8f7a1159ef1683ae5552363a6bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 54/82] fix: diagonalize dynamical matrices only at requested
 grid points

---
 phono3py/phonon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon/solver.py b/phono3py/phonon/solver.py
index 42b61b1..0bc5bcd 100644
--- a/phono3py/phonon/solver.py
+++ b/phono3py/phonon/solver.py
@@ -137,7 +137,7 @@ def run_phonon_solver_c(
         # phonon_done is set even with phono3c.include_lapacke() == 0 for which
         # dynamical matrices are not diagonalized in
         # phononcalc.phonons_at_gridpoints.
-        phonon_undone = np.where(phonon_done == 0)[0]
+        phonon_undone = np.unique(grid_points[phonon_done[grid_points] == 0])
 
     fc_p2s, fc_s2p = _get_fc_elements_mapping(dm, fc)
     phononcalc.phonons_at_gridpoints(
-- 
2.43.0


From 95b27053a30c3c1a871b5166fa61613ed65436db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 55/82] fix: default NAC factor of load is of eV and angstrom
 as all data are converted

---
 phono3py/cui/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 3ca030e..3bc331c 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -46,7 +46,7 @@ from phonopy.harmonic.force_constants import show_drift_force_constants
 from phonopy.interface.calculator import get_default_physical_units
 from phonopy.structure.atoms import PhonopyAtoms
 from phonopy.structure.cells import determinant
-from phonopy.units import VaspToTHz
+from phonopy.units import Bohr, Hartree, VaspToTHz
 
 from phono3py import Phono3py
 from phono3py.cui.create_force_constants import (
@@ -339,7 +339,7 @@ def load(
             _nac_params,
             born_filename,
             is_nac,
-            physical_units["nac_factor"],
+            Hartree * Bohr,
             log_level=log_level,
         )
 
-- 
2.43.0


From 8ff205524f30717cfa6419483e0b7568c663bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 56/82] fix: average reducible collision matrix over degenerate
 bands of all grid points

---
 phono3py/conductivity/direct_solution.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 83f480e..cf4aac4 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -542,7 +542,6 @@ class ConductivityLBTEBase(ConductivityBase):
             print(f"- Collision matrix shape {self._collision_matrix.shape}")
         if self._is_reducible_collision_matrix:
             if self._is_kappa_star:
-                self._average_collision_matrix_by_degeneracy()
                 num_mesh_points = np.prod(self._pp.mesh_numbers)
                 num_rot = len(self._point_operations)
                 rot_grid_points = np.zeros((num_rot, num_mesh_points), dtype="int64")
@@ -558,6 +557,7 @@ class ConductivityLBTEBase(ConductivityBase):
                     ]
                 self._expand_reducible_collisions(ir_gr_grid_points, rot_grid_points)
                 self._expand_local_values(ir_gr_grid_points, rot_grid_points)
+            self._average_collision_matrix_by_degeneracy()
             self._combine_reducible_collisions()
             weights = np.ones(np.prod(self._pp.mesh_numbers), dtype="int64")
             self._symmetrize_collision_matrix()
@@ -739,7 +739,11 @@ class ConductivityLBTEBase(ConductivityBase):
             sys.stdout.flush()
 
         col_mat = self._collision_matrix
-        for i, gp in enumerate(self._ir_grid_points):
+        if self._is_reducible_collision_matrix:
+            grid_points = self._pp.bz_grid.grg2bzg
+        else:
+            grid_points = self._ir_grid_points
+        for i, gp in enumerate(grid_points):
             freqs = self._frequencies[gp]
             deg_sets = degenerate_sets(freqs)
             for dset in deg_sets:
@@ -749,12 +753,11 @@ class ConductivityLBTEBase(ConductivityBase):
                         bi_set.append(j)
 
                 if self._is_reducible_collision_matrix:
-                    i_data = self._pp.bz_grid.bzg2grg[gp]
-                    sum_col = col_mat[:, :, i_data, bi_set, :, :].sum(axis=2) / len(
+                    sum_col = col_mat[:, :, i, bi_set, :, :].sum(axis=2) / len(
                         bi_set
                     )
                     for j in bi_set:
-                        col_mat[:, :, i_data, j, :, :] = sum_col
+                        col_mat[:, :, i, j, :, :] = sum_col
                 else:
                     sum_col = col_mat[:, :, i, bi_set, :, :, :, :].sum(axis=2) / len(
                         bi_set
@@ -762,7 +765,7 @@ class ConductivityLBTEBase(ConductivityBase):
                     for j in bi_set:
                         col_mat[:, :, i, j, :, :, :, :] = sum_col
 
-        for i, gp in enumerate(self._ir_grid_points):
+        for i, gp in enumerate(grid_points):
             freqs = self._frequencies[gp]
             deg_sets = degenerate_sets(freqs)
             for dset in deg_sets:
@@ -771,12 +774,11 @@ class ConductivityLBTEBase(ConductivityBase):
                     if j in dset:
                         bi_set.append(j)
                 if self._is_reducible_collision_matrix:
-                    i_data = self._pp.bz_grid.bzg2grg[gp]
-                    sum_col = col_mat[:, :, :, :, i_data, bi_set].sum(axis=4) / len(
+                    sum_col = col_mat[:, :, :, :, i, bi_set].sum(axis=4) / len(
                         bi_set
                     )
                     for j in bi_set:
-                        col_mat[:, :, :, :, i_data, j] = sum_col
+                        col_mat[:, :, :, :, i, j] = sum_col
                 else:
                     sum_col = col_mat[:, :, :, :, :, i, bi_set, :].sum(axis=5) / len(
                         bi_set
-- 
2.43.0


From 9d410eee56f5759c11d88c9f876e1cf18d1fce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 57/82] fix: store averaged interaction of reducible form at
 its mesh points

---
 phono3py/conductivity/direct_solution.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index cf4aac4..41e7243 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -519,7 +519,11 @@ class ConductivityLBTEBase(ConductivityBase):
                 self._collision.run_interaction(is_full_pp=self._is_full_pp)
 
             if self._is_full_pp and j == 0:
-                self._averaged_pp_interaction[i_gp] = self._pp.averaged_interaction
+                if self._is_reducible_collision_matrix:
+                    i_data = self._pp.bz_grid.bzg2grg[self._grid_points[i_gp]]
+                else:
+                    i_data = i_gp
+                self._averaged_pp_interaction[i_data] = self._pp.averaged_interaction
 
             for k, t in enumerate(self._temperatures):
                 self._collision.temperature = t
@@ -646,11 +650,16 @@ class ConductivityLBTEBase(ConductivityBase):
             if self._is_isotope:
                 gamma_iso_irgp = self._gamma_iso[:, ir_gp, :].copy()
                 self._gamma_iso[:, ir_gp, :] = 0
+            if self._is_full_pp:
+                ave_pp_irgp = self._averaged_pp_interaction[ir_gp].copy()
+                self._averaged_pp_interaction[ir_gp] = 0
             for j, r in enumerate(self._rotations_cartesian):
                 gp_r = rot_grid_points[j, ir_gp]
                 self._gamma[:, :, gp_r, :] += gamma_irgp / multi
                 if self._is_isotope:
                     self._gamma_iso[:, gp_r, :] += gamma_iso_irgp / multi
+                if self._is_full_pp:
+                    self._averaged_pp_interaction[gp_r] += ave_pp_irgp / multi
                 self._cv[:, gp_r, :] += cv_irgp / multi
                 self._gv[gp_r] += np.dot(gv_irgp, r.T) / multi
 
@@ -1169,11 +1178,12 @@ class ConductivityLBTEBase(ConductivityBase):
         gp = self._grid_points[i]
         frequencies = self._frequencies[gp]
         if self._is_reducible_collision_matrix:
-            gv = self._gv[self._pp.bz_grid.bzg2grg[gp]]
+            i_data = self._pp.bz_grid.bzg2grg[gp]
         else:
-            gv = self._gv[i]
+            i_data = i
+        gv = self._gv[i_data]
         if self._is_full_pp:
-            ave_pp = self._averaged_pp_interaction[i]
+            ave_pp = self._averaged_pp_interaction[i_data]
             text = "Frequency     group velocity (x, y, z)     |gv|       Pqj"
         else:
             text = "Frequency     group velocity (x, y, z)     |gv|"
-- 
2.43.0


From c4b8c3b8500ebe409b0e26d979f6305037579595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 58/82] fix: write whole collision matrix only when it has all
 grid points and bands

---
 phono3py/conductivity/direct_solution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 41e7243..360f986 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1823,11 +1823,10 @@ def get_thermal_conductivity_LBTE(
     # Write full collision matrix
     if write_LBTE_solution:
         if (
-            read_collision
-            and all_bands_exist(interaction)
-            and read_from == "grid_points"
+            all_bands_exist(interaction)
             and grid_points is None
-        ) or (not read_collision):
+            and (not read_collision or read_from == "grid_points")
+        ):
             ConductivityLBTEWriter.write_collision(
                 lbte, interaction, filename=output_filename
             )
-- 
2.43.0


From b4360ff3b5fa052c27d3f0fc301a9eae6ec244b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 59/82] fix: refuse collision matrices of different
 temperatures

---
 phono3py/conductivity/utils.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 85f2d28..296b689 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1069,6 +1069,13 @@ def set_collision_from_file(
                 arrays_allocated = True
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
+            elif not _is_same_temperatures(
+                {"temperature": temperatures},
+                lbte.temperatures,
+                f"collision file at sigma {sigma}",
+                log_level > 0,
+            ):
+                return False
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
             lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
@@ -1115,7 +1122,7 @@ def set_collision_from_file(
                 if not _collect_collision_gp(
                     lbte.collision_matrix[i_sigma],
                     lbte.gamma[i_sigma],
-                    temperatures,
+                    lbte.temperatures,
                     mesh,
                     sigma,
                     sigma_cutoff,
@@ -1132,7 +1139,7 @@ def set_collision_from_file(
                         if not _collect_collision_band(
                             lbte.collision_matrix[i_sigma],
                             lbte.gamma[i_sigma],
-                            temperatures,
+                            lbte.temperatures,
                             mesh,
                             sigma,
                             sigma_cutoff,
@@ -1230,9 +1237,15 @@ def _collect_collision_gp(
         igp = bzg2grg[gp]
     else:
         igp = i
+    if not _is_same_temperatures(
+        {"temperature": temperatures_at_gp},
+        temperatures,
+        f"collision file at grid point {gp}",
+        log_level > 0,
+    ):
+        return False
     gamma_at_sigma[:, igp] = gamma_at_gp
     colmat_at_sigma[:, igp] = colmat_at_gp[0]
-    temperatures[:] = temperatures_at_gp
 
     return True
 
@@ -1274,8 +1287,14 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
+    if not _is_same_temperatures(
+        {"temperature": temperatures_at_band},
+        temperatures,
+        f"collision file at grid point {gp} and band {j + 1}",
+        log_level > 0,
+    ):
+        return False
     gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
-    temperatures[:] = temperatures_at_band
 
     return True
-- 
2.43.0


From bd43c54c4bab879ffc05747cdc8fa0b107612cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 60/82] fix: leave modes without scattering out of reducible
 RTA conductivity

---
 phono3py/conductivity/direct_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 360f986..552d49d 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1040,8 +1040,8 @@ class ConductivityLBTEBase(ConductivityBase):
         for gp in range(num_mesh_points):
             frequencies = self._frequencies[self._pp.bz_grid.grg2bzg[gp]]
             for j, f in enumerate(frequencies):
-                if f > self._pp.cutoff_frequency:
-                    i_mode = gp * num_band + j
+                i_mode = gp * num_band + j
+                if f > self._pp.cutoff_frequency and v_diag[i_mode] != 0:
                     Y[i_mode, :] = X[i_mode, :] / v_diag[i_mode]
         # Putting self._rotations_cartesian is to symmetrize kappa.
         # None can be put instead for watching pure information.
-- 
2.43.0


From 4afe67ad45d5fe8d8781019d62ae62b0f6a5423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 61/82] fix: set total Wigner thermal conductivities of LBTE

---
 phono3py/conductivity/direct_solution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 552d49d..f3e56d3 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1587,6 +1587,13 @@ class ConductivityWignerLBTE(ConductivityWignerMixIn, ConductivityLBTEBase):
 
                     self._set_kappa(j, k, weights)
 
+                    self._kappa_TOT_RTA[j, k] = (
+                        self._kappa_P_RTA[j, k] + self._kappa_C[j, k]
+                    )
+                    self._kappa_TOT_exact[j, k] = (
+                        self._kappa_P_exact[j, k] + self._kappa_C[j, k]
+                    )
+
                     if self._log_level:
                         print(
                             ("#%6s       " + " %-10s" * 6)
-- 
2.43.0


From fd103f1e236f3b766c80742f49c40a6e12170f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 62/82] fix: skip only pairs of bands below cutoff frequency in
 Kubo conductivity

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 89edcf3..7761431 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -939,7 +939,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From 6e2de18c053af014116050b66dac763a369254f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 63/82] fix: keep heat capacities of low frequency modes in
 Kubo conductivity at low temperature

---
 phono3py/conductivity/kubo.py           | 4 ++--
 phono3py/phonon/heat_capacity_matrix.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 34da628..75b3997 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -35,7 +35,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 import numpy as np
-from phonopy.units import Kb, THzToEv
+from phonopy.units import THzToEv
 
 from phono3py.phonon.group_velocity_matrix import GroupVelocityMatrix
 from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix
@@ -75,7 +75,7 @@ class ConductivityKuboMixIn:
         cutoff = self._pp.cutoff_frequency * THzToEv
 
         for i_temp, temp in enumerate(self._temperatures):
-            if (freqs / (temp * Kb) > 100).any():
+            if temp <= 0:
                 continue
             cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
diff --git a/phono3py/phonon/heat_capacity_matrix.py b/phono3py/phonon/heat_capacity_matrix.py
index 05056de..deddf53 100644
--- a/phono3py/phonon/heat_capacity_matrix.py
+++ b/phono3py/phonon/heat_capacity_matrix.py
@@ -68,14 +68,17 @@ def mode_cv_matrix(temp, freqs, cutoff=1e-4):
 
     """
     x = freqs / Kb / temp
+    # Phonon occupation. exp(x) is limited to avoid overflow.
+    n = 1 / (np.exp(np.minimum(x, 500)) - 1)
     shape = (len(freqs), len(freqs))
     cvm = np.zeros(shape, dtype="double", order="C")
     for i, j in np.ndindex(shape):
         if abs(freqs[i] - freqs[j]) < cutoff:
-            cvm[i, j] = mode_cv(temp, freqs[i])
+            if x[i] < 100:
+                cvm[i, j] = mode_cv(temp, freqs[i])
             continue
         sub = x[i] - x[j]
         add = x[i] + x[j]
-        n_inv = np.exp([x[i], x[j], sub]) - 1
-        cvm[i, j] = Kb * n_inv[2] / sub * (add / 2) ** 2 / n_inv[0] * (1 / n_inv[1] + 1)
+        cvm[i, j] = Kb * (n[j] - n[i]) / sub * (add / 2) ** 2
+
     return cvm
-- 
2.43.0


From d82eab3f43967cdfd849aa8bbcce5d230df73421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 64/82] fix: write gamma of Kubo conductivity calculation

---
 phono3py/conductivity/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 296b689..1eb6ca9 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -102,9 +102,9 @@ class ConductivityRTAWriter:
         else:
             velocity_operator_i = None
         if isinstance(br, (ConductivityRTA, ConductivityWignerRTA)):
-            mode_heat_capacities = br.mode_heat_capacities
+            mode_heat_capacities_i = br.mode_heat_capacities[:, i]
         else:
-            mode_heat_capacities = None
+            mode_heat_capacities_i = None
         ave_pp = br.averaged_pp_interaction
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -145,7 +145,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=mode_heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -174,6 +174,10 @@ class ConductivityRTAWriter:
                         gv_by_gv_ik = None
                     else:
                         gv_by_gv_ik = gv_by_gv_i[k]
+                    if mode_heat_capacities_i is None:
+                        mode_heat_capacities_ik = None
+                    else:
+                        mode_heat_capacities_ik = mode_heat_capacities_i[:, k]
                     if ave_pp is None:
                         ave_pp_ik = None
                     else:
@@ -199,7 +203,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=mode_heat_capacities_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From a7ec37cb7b6f9431d0da59af4d108acc0f5fad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 65/82] fix: write thermal conductivity of Kubo calculation

---
 phono3py/conductivity/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 1eb6ca9..7b205a7 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -228,7 +228,11 @@ class ConductivityRTAWriter:
         log_level: int = 0,
     ):
         """Write kappa related properties into a hdf5 file."""
-        from phono3py.conductivity.rta import ConductivityRTA, ConductivityWignerRTA
+        from phono3py.conductivity.rta import (
+            ConductivityKuboRTA,
+            ConductivityRTA,
+            ConductivityWignerRTA,
+        )
 
         temperatures = br.temperatures
         sigmas = br.sigmas
@@ -246,7 +250,10 @@ class ConductivityRTAWriter:
             gv = br.group_velocities
             gv_by_gv = br.gv_by_gv
         else:
-            kappa = None
+            if isinstance(br, ConductivityKuboRTA):
+                kappa = br.kappa
+            else:
+                kappa = None
             mode_kappa = None
             gv = None
             gv_by_gv = None
-- 
2.43.0


From 057b722034492d3fa1ad88607a3403aad9327513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 66/82] fix: keep off-diagonal elements of group velocity
 matrices at symmetric q-points

---
 phono3py/phonon/group_velocity_matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/phonon/group_velocity_matrix.py b/phono3py/phonon/group_velocity_matrix.py
index 1f07a4d..548256a 100644
--- a/phono3py/phonon/group_velocity_matrix.py
+++ b/phono3py/phonon/group_velocity_matrix.py
@@ -180,6 +180,11 @@ class GroupVelocityMatrix(GroupVelocity):
             gvm_sym += np.einsum("ij,jkl->ikl", r_cart, gvm)
         gvm_sym = gvm_sym / len(rotations)
 
+        # Off-diagonal elements are not invariant under site symmetries because
+        # phases of eigenvectors of different bands change differently.
+        off_diagonal = ~np.eye(gvm.shape[1], dtype=bool)
+        gvm_sym[:, off_diagonal] = gvm[:, off_diagonal]
+
         # band hermicity
         gvm_sym = (gvm_sym + gvm_sym.transpose(0, 2, 1).conj()) / 2
 
-- 
2.43.0


From d192653e222561134992d234153fb8f1fe5e55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 67/82] fix: leave modes without scattering out of Wigner
 thermal conductivity

---
 phono3py/conductivity/rta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 7761431..1387cfe 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -758,6 +758,9 @@ class ConductivityWignerRTA(ConductivityWignerMixIn, ConductivityRTABase):
                             ):
                                 hbar_gamma_eV_s1 = 2.0 * g_sum[s1] * THzToEv
                                 hbar_gamma_eV_s2 = 2.0 * g_sum[s2] * THzToEv
+                                if hbar_gamma_eV_s1 + hbar_gamma_eV_s2 == 0:
+                                    # modes without scattering
+                                    continue
                                 #
                                 lorentzian_divided_by_hbar = (
                                     0.5 * (hbar_gamma_eV_s1 + hbar_gamma_eV_s2)
-- 
2.43.0


From e57a58a1da3c6b8b13aa7422cedfcde358272a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 68/82] fix: show temperature independent scalar properties by
 phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index e452ade..f2f4fe6 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -38,7 +38,7 @@ def _show_tensor(kdos, temperatures, sampling_points, args):
 def _show_scalar(gdos, temperatures, sampling_points, args):
     """Show scalar values."""
     if args.pqj or args.gruneisen or args.gv_norm:
-        for f, g in zip(sampling_points, gdos[0]):
+        for f, g in zip(sampling_points[0], gdos[0]):
             print("%f %e %e" % (f, g[0], g[1]))
     else:
         for i, gdos_t in enumerate(gdos):
-- 
2.43.0


From e0bccb5c1b1cb300e35774e3ae94c178f3132ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 69/82] fix: DOS by smearing from phonon-xxx.hdf5 in
 phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index f2f4fe6..f452e69 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -126,7 +126,7 @@ def _assert_grid_in_hdf5(
         np.testing.assert_allclose(diff_q, 0, atol=1e-5)
 
 
-def _get_mode_property(args, f_kappa):
+def _get_mode_property(args, f_kappa, frequencies):
     """Read property data from hdf5 file object."""
     if args.pqj:
         mode_prop = f_kappa["ave_pp"][:].reshape((1,) + f_kappa["ave_pp"].shape)
@@ -145,9 +145,7 @@ def _get_mode_property(args, f_kappa):
         mode_prop = f_kappa["gruneisen"][:].reshape((1,) + f_kappa["gruneisen"].shape)
         mode_prop **= 2
     elif args.dos:
-        mode_prop = np.ones(
-            (1,) + f_kappa["frequency"].shape, dtype="double", order="C"
-        )
+        mode_prop = np.ones((1,) + frequencies.shape, dtype="double", order="C")
     else:
         raise RuntimeError("No property target is specified.")
     return mode_prop
@@ -325,7 +323,7 @@ def _run_scalar(
     ir_grid_points: Optional[np.ndarray],
     bz_grid: BZGrid,
 ):
-    mode_prop = _get_mode_property(args, f_kappa)
+    mode_prop = _get_mode_property(args, f_kappa, frequencies)
 
     if args.temperature is not None and not (
         args.gv_norm or args.pqj or args.gruneisen or args.dos
-- 
2.43.0


From cc9c846304e7fb616d2e335dd80efda9b4a555dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 70/82] fix: count each grid point once with --no-gridsym in
 phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index f452e69..a084dcf 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -291,6 +291,9 @@ def _collect_data(
     else:
         print("# Read frequency.")
         frequencies = f_kappa["frequency"][:]
+        if len(frequencies) == len(bz_grid.addresses):
+            # Frequencies in "phonon-xxx.hdf5" are those on BZ-grid.
+            frequencies = np.array(frequencies[bz_grid.grg2bzg], dtype="double")
         ir_weights = np.ones(len(frequencies), dtype="int64")
 
     # ir_grid_points (GR-grid), ir_grid_map (GR-grid)
-- 
2.43.0


From fe744abb6b047c4fb3bc4cbc4eb57e1e942096d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 71/82] fix: use of --gv with --mfp in phono3py-kaccum

---
 phono3py/cui/kaccum_script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index a084dcf..dac7a79 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -386,6 +386,9 @@ def _run_tensor(
             mean_freepath = np.sqrt((mfp**2).sum(axis=3))
         else:
             mean_freepath = get_mfp(f_kappa["gamma"][:], f_kappa["group_velocity"][:])
+        if args.gv:
+            # gv_by_gv is independent of temperature.
+            mode_prop = np.repeat(mode_prop, len(mean_freepath), axis=0)
         if args.temperature is not None:
             (temperatures, mode_prop, mean_freepath) = _set_T_target(
                 temperatures,
-- 
2.43.0


From 857db7c9fd65d2f3540274e0c9182eed7e3cfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 72/82] fix: use given sigma in GammaDOSsmearing

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From b84fdd41cb3fe0f4d695682220d410d4bc24cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 73/82] fix: accumulate up to modes of very long mean free
 paths

---
 phono3py/other/kaccum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index 390be8a..14bcfb0 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -95,7 +95,10 @@ class KappaDOSTHM:
 
         """
         min_freq = min(frequencies.ravel())
-        max_freq = max(frequencies.ravel()) + epsilon
+        max_freq = max(frequencies.ravel())
+        # The last sampling point has to be above all values, even if they are so
+        # large that epsilon is lost.
+        max_freq = max(max_freq + epsilon, np.nextafter(max_freq, np.inf))
         if frequency_points is None:
             self._frequency_points = np.linspace(
                 min_freq, max_freq, num_sampling_points, dtype="double"
-- 
2.43.0


From 49a76872066b6d4c2f710fb66680d1f0bcddb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 74/82] fix: leave modes without lifetime out of kdeplot when
 maximum frequency is given

---
 phono3py/scripts/phono3py_kdeplot.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/phono3py/scripts/phono3py_kdeplot.py b/phono3py/scripts/phono3py_kdeplot.py
index 8c5e263..27ef7b2 100755
--- a/phono3py/scripts/phono3py_kdeplot.py
+++ b/phono3py/scripts/phono3py_kdeplot.py
@@ -19,15 +19,12 @@ def collect_data(gamma, weights, frequencies, cutoff, max_freq):
             tau = np.where(tau < cutoff, tau, -1)
 
         condition = tau > 0
+        if max_freq is not None:
+            condition = np.logical_and(condition, freq < max_freq)
         _tau = np.extract(condition, tau)
         _freq = np.extract(condition, freq)
-
-        if max_freq is None:
-            freqs += list(_freq) * w
-            mode_prop += list(_tau) * w
-        else:
-            freqs += list(np.extract(freq < max_freq, freq)) * w
-            mode_prop += list(np.extract(freq < max_freq, tau)) * w
+        freqs += list(_freq) * w
+        mode_prop += list(_tau) * w
 
     x = np.array(freqs)
     y = np.array(mode_prop)
-- 
2.43.0


From 10b7a71c9a8cffc2b257da58a2379f46d8ea1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 75/82] fix: read N_U and WRITE_LBTE_SOLUTION tags of
 configuration file

---
 phono3py/cui/settings.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index a70bc77..cddef52 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -496,7 +496,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "is_N_U" in self._args:
             if self._args.is_N_U:
-                self._confs["N_U"] = ".true."
+                self._confs["n_u"] = ".true."
 
         if "is_plusminus_displacements_fc2" in self._args:
             if self._args.is_plusminus_displacements_fc2:
@@ -666,7 +666,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "write_LBTE_solution" in self._args:
             if self._args.write_LBTE_solution:
-                self._confs["write_LBTE_solution"] = ".true."
+                self._confs["write_lbte_solution"] = ".true."
 
     def _parse_conf(self):
         ConfParser.parse_conf(self)
@@ -688,7 +688,7 @@ class Phono3pyConfParser(ConfParser):
                 "write_collision",
                 "write_phonon",
                 "write_pp",
-                "write_LBTE_solution",
+                "write_lbte_solution",
                 "full_pp",
                 "ion_clamped",
                 "bterta",
@@ -701,7 +701,7 @@ class Phono3pyConfParser(ConfParser):
                 "isotope",
                 "joint_dos",
                 "lbte",
-                "N_U",
+                "n_u",
                 "spectral_function",
                 "reducible_collision_matrix",
                 "show_symfc_memory_usage",
@@ -950,8 +950,8 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_num_points_in_batch(params["num_points_in_batch"])
 
         # Calculate Normal and Umklapp processes
-        if "N_U" in params:
-            self._settings.set_is_N_U(params["N_U"])
+        if "n_u" in params:
+            self._settings.set_is_N_U(params["n_u"])
 
         # Plus minus displacement for fc2
         if "pm_fc2" in params:
@@ -1100,5 +1100,5 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_write_pp(params["write_pp"])
 
         # Write direct solution of LBTE to hdf5 files
-        if "write_LBTE_solution" in params:
-            self._settings.set_write_LBTE_solution(params["write_LBTE_solution"])
+        if "write_lbte_solution" in params:
+            self._settings.set_write_LBTE_solution(params["write_lbte_solution"])
-- 
2.43.0


From 605d99dfbf339cf427ccdb3bb232ee8d34ea5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 76/82] fix: let FC3_R0_AVERAGE tag of configuration file be
 effective without option

---
 phono3py/cui/settings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index cddef52..26c9fc7 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -389,6 +389,9 @@ class Phono3pyConfParser(ConfParser):
         if args is not None:
             super().__init__(args=args)
             self._read_options()
+            if self._confs.get("fc3_r0_average") == ".true.":
+                # Without --v2. The tag in conf file, if any, is effective.
+                self._confs["fc3_r0_average"] = confs.get("fc3_r0_average", ".true.")
             self._parse_conf()
             self._set_settings()
             confs.update(self._confs)
@@ -469,6 +472,8 @@ class Phono3pyConfParser(ConfParser):
         if "is_fc3_r0_average" in self._args:
             if self._args.is_fc3_r0_average:
                 self._confs["fc3_r0_average"] = ".true."
+            else:
+                self._confs["fc3_r0_average"] = ".false."
 
         if "is_full_pp" in self._args:
             if self._args.is_full_pp:
-- 
2.43.0


From d4903334a511ce7b75afebfa46bd66301cfd38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 77/82] fix: set value given by --pp-unit-conversion option

---
 phono3py/cui/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index 26c9fc7..d46f96f 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -577,8 +577,8 @@ class Phono3pyConfParser(ConfParser):
             if self._args.pinv_solver is not None:
                 self._confs["pinv_solver"] = self._args.pinv_solver
 
-        if "pp_conversion_factor" in self._args:
-            pp_conv_factor = self._args.pp_conversion_factor
+        if "pp_unit_conversion" in self._args:
+            pp_conv_factor = self._args.pp_unit_conversion
             if pp_conv_factor is not None:
                 self._confs["pp_conversion_factor"] = pp_conv_factor
 
-- 
2.43.0


From 37e85ce26816ad17382afd37ef7336124a666e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 78/82] fix: accept zero given by --cutoff-freq and
 --random-seed options

---
 phono3py/cui/settings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index d46f96f..893d98c 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -399,6 +399,10 @@ class Phono3pyConfParser(ConfParser):
 
     def _read_options(self):
         ConfParser.read_options(self)  # store data in self._confs
+        # Zeros are values as well.
+        for key in ("cutoff_frequency", "random_seed"):
+            if key in self._args and getattr(self._args, key) == 0:
+                self._confs[key] = getattr(self._args, key)
         if "phonon_supercell_dimension" in self._args:
             dim_fc2 = self._args.phonon_supercell_dimension
             if dim_fc2 is not None:
-- 
2.43.0


From 8c3fafd9c08331507b12203dff8788270f879758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 79/82] fix: keep symmetry of GR-grid generated from length

---
 phono3py/phonon/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 4bb6c72..e0bdcb4 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -842,7 +842,12 @@ class GridMatrix:
                 sym_dataset, max_num_atoms=max_num_atoms, max_iter=200
             )
         elif coordinates == "reciprocal":
-            conv_mesh_numbers = length2mesh(length, conv_lat)
+            # Rotations are given so that mesh numbers of equivalent axes agree.
+            conv_rotations = [
+                np.rint(similarity_transformation(tmat, r)).astype(int)
+                for r in sym_dataset.rotations
+            ]
+            conv_mesh_numbers = length2mesh(length, conv_lat, rotations=conv_rotations)
         else:
             raise TypeError('Expect "direct" or "reciprocal" for coordinates.')
 
-- 
2.43.0


From 02c1e9ffee62c4e453c9b6a8e1a88d7cec3bfd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 80/82] fix: solve phonons again for new dynamical matrix in
 isotope scattering

---
 phono3py/other/isotope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 45ba6a1..dabf52f 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -233,6 +233,9 @@ class Isotope:
             frequency_scale_factor=frequency_scale_factor,
             decimals=decimals,
         )
+        if self._phonon_done is not None:
+            # Phonons of the previous dynamical matrix are no longer valid.
+            self._allocate_phonon()
 
     def set_nac_q_direction(self, nac_q_direction=None):
         """Set q-direction at q->0 used for NAC."""
-- 
2.43.0


From 4bd221d139694f4774a49da4e65ff85fc7c0cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 81/82] fix: accept compact force constants in mode-Gruneisen
 calculation

---
 phono3py/phonon3/gruneisen.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/phono3py/phonon3/gruneisen.py b/phono3py/phonon3/gruneisen.py
index 9f6a7b4..fffdbb7 100644
--- a/phono3py/phonon3/gruneisen.py
+++ b/phono3py/phonon3/gruneisen.py
@@ -403,7 +403,7 @@ class Gruneisen:
         fc3 = self._fc3
         num_atom_prim = len(self._pcell)
         num_atom_super = len(self._scell)
-        p2s = self._pcell.p2s_map
+        first_atoms = self._get_first_atoms(fc3)
         dPhidu = np.zeros((num_atom_prim, num_atom_super, 3, 3, 3, 3), dtype=float)
 
         for nu in range(num_atom_prim):
@@ -415,13 +415,19 @@ class Gruneisen:
                             for ll in range(3):
                                 for _ in range(3):
                                     dPhidu[nu, pi, i, j, k, ll] = (
-                                        fc3[p2s[nu], pi, :, i, j, :] * Y[:, :, k, ll]
+                                        fc3[first_atoms[nu], pi, :, i, j, :] * Y[:, :, k, ll]
                                     ).sum()
                                     # Symmetrization?
                                     # (Y[:,:,k,l] + Y[:,:,l,k]) / 2).sum()
 
         return dPhidu
 
+    def _get_first_atoms(self, fc):
+        """Return first indices of force constants of atoms in primitive cell."""
+        if fc.shape[0] == fc.shape[1]:  # full matrix
+            return self._pcell.p2s_map
+        return np.arange(len(self._pcell))
+
     def _get_Y(self, nu):
         X = self._X
         lat = self._pcell.cell
@@ -442,7 +448,7 @@ class Gruneisen:
     def _get_X(self):
         num_atom_super = len(self._scell)
         num_atom_prim = len(self._pcell)
-        p2s = self._pcell.p2s_map
+        first_atoms = self._get_first_atoms(self._fc2)
         lat = self._pcell.cell
         X = np.zeros((num_atom_prim, 3, 3, 3), dtype=float)
         G = self._get_Gamma()
@@ -456,7 +462,7 @@ class Gruneisen:
                         for k in range(3):
                             for ll in range(3):
                                 X[mu, i, j, k] -= G[mu, nu, i, ll] * np.dot(
-                                    P[p2s[nu], :, ll, j], R[:, k]
+                                    P[first_atoms[nu], :, ll, j], R[:, k]
                                 )
 
         return X
-- 
2.43.0


From 05abcbc209f32a7a29cd22b78d0f03c146569e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:44 +0000
Subject: [PATCH 82/82] fix: compute mode length at low and zero temperatures

---
 phono3py/phonon/func.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/phono3py/phonon/func.py b/phono3py/phonon/func.py
index 434feef..07901b8 100644
--- a/phono3py/phonon/func.py
+++ b/phono3py/phonon/func.py
@@ -90,16 +90,10 @@ def sigma_squared(x, T):
     Values in [AMU * Angstrom^2]
 
     """
-    #####################################
-    old_settings = np.seterr(all="raise")
-    #####################################
-
-    n = bose_einstein(x, T)
+    # Occupation of frozen modes is zero: exp may overflow at low temperature.
+    with np.errstate(all="raise", over="ignore", under="ignore"):
+        n = bose_einstein(x, T) if T > 0 else 0.0
     # factor=1.0107576777968994
     factor = Hbar * EV / (2 * np.pi * THz) / AMU / Angstrom**2
 
-    #########################
-    np.seterr(**old_settings)
-    #########################
-
     return (0.5 + n) / x * factor
-- 
2.43.0

