From cbe36c48e77c7445fd20857654766f0baf05c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:31 +0000
Subject: [PATCH 01/37] fix: size the expanded scalar phi12 array for the last
 tracked turn

The tracking reads phi12 for turns 0..nturns, but the array made from a
scalar phi12 held only nturns values: the kick at the last turn used
whatever lay behind the buffer.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..0cc1d87 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,13 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // kick_and_drift() reads the values at turn 0 up to and including nturns
+    const int n_values = nturns + 1;
+    real_t *ptr_phi12 = new real_t[n_values];
+    std::fill_n(ptr_phi12, n_values, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({n_values}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From e07b4ab245ca797a29bf9f6248fefbdc5ce449bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:31 +0000
Subject: [PATCH 02/37] fix: project each reconstruction iteration onto an
 empty waterfall

project() accumulates, and the recreated waterfall of the previous
iteration was still in the array: recreated profiles and discrepancies
were a mix of iterations and differed from run_hybrid().
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..abae06a 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <iomanip>
 #include <stdexcept>
+#include <algorithm>
 #include <cmath>
 #include <functional>
 
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
@@ -498,6 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -518,6 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From a6825d5fe0d227458ff3ae163590ce9c3ca43a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 03/37] fix: reject every particle outside the phase space
 image

Only the flattened index was checked, and only from above: negative
coordinates wrote before the image, and a y coordinate outside the image
was added to a cell of a neighbouring column.
---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..a50c015 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,13 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
-        phase_space[index] += weight[i];
+        }
+        phase_space[yp[i] + xp[i] * n_bins] += weight[i];
     }
 
     return phase_space;
-- 
2.43.0


From 0ea5cc2076c5a53f4b798037736ecba9bba3a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 04/37] fix: data races in the reconstruction loops

Loop temporaries declared outside parallel loops were shared by all
threads, the multi-bunch back projection split one particle's sum over
several threads, and several threads added to the same bins in the
multi-bunch projection and particle count: results depended on the number
of threads.
---
 .../cpp_routines/reconstruct.cpp              | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index abae06a..32d6ac0 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -241,12 +240,10 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int nbins,
                                   const int ncenters) {
 
-    int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-                bin = xpRound0[j * nprof + i] + centers[c];
+                const int bin = xpRound0[j * nprof + i] + centers[c];
                 rparts[bin + i * nbins] += 1;
             }
         }
@@ -274,11 +271,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -305,11 +301,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            const int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
@@ -338,16 +333,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From 8d4bd8242d96b5073cbfe9c226df6d14e40a8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 05/37] fix: discrepancy per bunch in the multi-bunch
 reconstruction

The sum was shared by all bunches and never reset, and only bins of the
first profile were counted. Calculate it as run_hybrid() does.
---
 .../cpp_routines/reconstruct.cpp                    | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 32d6ac0..ef6448e 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -157,18 +157,13 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
-        for (int i = 0; i < all_bins; i++)
-        {
-            if (i < cutright[c] && i > cutleft[c])
-            {
-                squared_sum += std::pow(diff_prof[i], 2.0);
-            }
-        }
+        real_t squared_sum = 0;
+        for (int i = 0; i < nprof; i++)
+            for (int j = cutleft[c]; j < cutright[c]; j++)
+                squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
     }
 }
-- 
2.43.0


From bdc9e5eef3dcb9b24ab07cfcbc2dfff3597be82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 06/37] fix: treat the weights of all bunches alike in the
 multi-bunch run

The first clipping and the checks for an empty phase space looked at the
first bunch only: an empty first bunch aborted the reconstruction.
---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index ef6448e..5179ebc 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -477,9 +477,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -503,7 +503,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 9ecf7109fdcb0289d786f341115182eadc0a04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 07/37] fix: pass the particles in the expected layout to the
 multi-bunch count

count_particles_in_bins_multi() reads (nparts, nprofiles), the transposed
array mixed up the profiles.
---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..50cc241 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 15c4fa7834b09a1c3d5047492d27a435a8693a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 08/37] fix: allow tracking from the last profile

recprof=nprofiles-1 and recprof=-1 are valid time frames, but were
rejected.
---
 longitudinal_tomography/tracking/tracking.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..ca93cdf 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -146,12 +146,13 @@ class Tracking(ParticleTracker):
                          ValueError, '|deltaturn| must be less than the'
                          + ' number of turns between profiles')
 
-        asrt.assert_less(machine.dturns*recprof + deltaturn,
-                         'reconstruction turn',
-                         machine.dturns*(machine.nprofiles-1), ValueError,
-                         'Reconstruction turn '
-                         + '(machine.dturns*recprof + deltaturn) must be less'
-                         + ' than the total number of measured turns.')
+        asrt.assert_less_or_equal(machine.dturns*recprof + deltaturn,
+                                  'reconstruction turn',
+                                  machine.dturns*(machine.nprofiles-1),
+                                  ValueError, 'Reconstruction turn '
+                                  + '(machine.dturns*recprof + deltaturn) '
+                                  + 'must not exceed the total number of '
+                                  + 'measured turns.')
 
         asrt.assert_greater_or_equal(machine.dturns*recprof + deltaturn,
                                      'reconstruction turn', 0, ValueError,
-- 
2.43.0


From 72865e14f00f8dc6d471425e826f112b5d63efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:35 +0000
Subject: [PATCH 09/37] fix: pass deltaturn in the kick_and_drift compatibility
 wrapper

libtomo.kick_and_drift() takes deltaturn after the profile index; without
it nturns, nparts and ftn_out were shifted by one argument and nothing was
tracked.
---
 longitudinal_tomography/cpp_routines/tomolib_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
index 879083a..1529ea7 100644
--- a/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
+++ b/longitudinal_tomography/cpp_routines/tomolib_wrappers.py
@@ -203,12 +203,12 @@ ftn_out: boolean, optional, default=False
 
     if machine is not None:
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
-                                      machine, rec_prof, nturns, nparts,
+                                      machine, rec_prof, 0, nturns, nparts,
                                       ftn_out)
     elif all([x is not None for x in machine_args]):
         return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2,
                                       phi0, deltaE0, drift_coef, phi12,
-                                      h_ratio, dturns, rec_prof, nturns,
+                                      h_ratio, dturns, rec_prof, 0, nturns,
                                       nparts, ftn_out)
     else:
         raise expt.InputError(
-- 
2.43.0


From e2edfe41e9d2ff5808d53a2daeecdee2fd289217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:34 +0000
Subject: [PATCH 10/37] fix: single precision tracking returned zeroes

With an array or an integer phi12, or an integer h_ratio, no single
precision overload of the compiled routine matched; it tracked converted
copies and the returned arrays stayed empty.
---
 longitudinal_tomography/tracking/tracking.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index ca93cdf..cc2a13e 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -189,6 +189,10 @@ class Tracking(ParticleTracker):
         phi0 = conf.cast(machine.phi0)
         deltaE0 = conf.cast(machine.deltaE0)
         drift_coef = conf.cast(machine.drift_coef)
+        # All arguments must be of the same precision: the compiled routine
+        # otherwise works on, and fills, converted copies of the arrays.
+        phi12 = (conf.cast(machine.phi12) if np.ndim(machine.phi12) > 0
+                 else float(machine.phi12))
 
         # Tracking particles
         if self.self_field_flag:
@@ -206,8 +210,9 @@ class Tracking(ParticleTracker):
             yp = conf.cast(conf.zeros((machine.nprofiles, nparts)))
 
             conf.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0,
-                                deltaE0, drift_coef, machine.phi12,
-                                machine.h_ratio, machine.dturns, recprof,
+                                deltaE0, drift_coef, phi12,
+                                float(machine.h_ratio), machine.dturns,
+                                recprof,
                                 deltaturn, nturns, nparts, self.fortran_flag,
                                 callback=callback)
 
-- 
2.43.0


From cbc1ba7806b81dafc0da260efe0bd88d8dcfcaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:55 +0000
Subject: [PATCH 11/37] fix: accept phi12 as a scalar or an array in
 ProgramsMachine

A scalar phi12 ended in a TypeError when the synchronous phase was
calculated, and every array in one from ndarray.size().
---
 .../tracking/programs_machine.py              | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..346b128 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -87,6 +87,7 @@ class ProgramsMachine(MachineABC):
                 raise ValueError('You can only pass either phi12 or '
                                  'phase_function, not both.')
             self.phase_raw = None
+            self._phi12_raw = self.phi12
             self.process_phase = 0
         elif phase_function is not None:
             self.phase_raw = phase_function
@@ -131,20 +132,20 @@ class ProgramsMachine(MachineABC):
                 self.phase_raw[0, :],
                 self.phase_raw[1, :]
             )
-        elif self.process_phase == 0:
-            if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
-                    self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
-                    self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
-                                           self.phi12)
-                else:
-                    raise ValueError(f'Do not know how to interpolate phi12 '
-                                     f'array of shape {self.phi12.shape}. '
-                                     f'It should either match voltage '
-                                     f'function or provide its own time axis.')
+        elif self.process_phase == 0 and self._phi12_raw is not None:
+            phi12 = np.asarray(self._phi12_raw, dtype=float)
+            if phi12.size == 1:
+                self.phi12 = np.full(len(momentum_time), phi12.item())
+            elif phi12.ndim == 2 and phi12.shape[0] == 2:
+                self.phi12 = np.interp(momentum_time, *phi12)
+            elif phi12.ndim == 1 and len(phi12) == self.voltage_raw.shape[1]:
+                self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
+                                       phi12)
+            else:
+                raise ValueError(f'Do not know how to interpolate phi12 '
+                                 f'array of shape {phi12.shape}. '
+                                 f'It should either match voltage '
+                                 f'function or provide its own time axis.')
 
         # interpolate second harmonic voltage & phase if applicable
         if len(self.harmonics) == 2:
-- 
2.43.0


From 5a5032d6e67245285613652a53c1aa27022042db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:21 +0000
Subject: [PATCH 12/37] fix: accelerate negative charges in ProgramsMachine

The bending field carried the sign of the charge, which the synchronous
phase calculation applies again: with a negative charge the RF took
energy from a beam whose momentum program rises.
---
 longitudinal_tomography/tracking/programs_machine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 346b128..515b727 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -188,7 +188,7 @@ class ProgramsMachine(MachineABC):
         drift_coef = (2 * np.pi * self.h_num * eta0
                       / (energy * beta0 ** 2))
 
-        bfield = momentum / (self.bending_rad * self.q) / cont.c
+        bfield = momentum / (self.bending_rad * abs(self.q)) / cont.c
         bdot = np.gradient(bfield, time_at_turn)
 
         self.momentum_function = momentum_function
@@ -227,7 +227,8 @@ class ProgramsMachine(MachineABC):
 
         self.phi12 = np.arcsin(2 * np.pi * self.bending_rad *
                                self.mean_orbit_rad *
-                               self.bdot / self.vrf1_at_turn) \
+                               self.bdot * np.sign(self.q)
+                               / self.vrf1_at_turn) \
             + np.pi / self.h_ratio
 
         if c04mode == 2:
-- 
2.43.0


From 97f60fdb56d15fceced6b3afdb40f23537413c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:43 +0000
Subject: [PATCH 13/37] fix: interpolate every requested turn in
 ProgramsMachine

The turn that ends the interpolation was counted although it is dropped
afterwards, so that, depending on where the time stamps fall, the arrays
came out one turn short. Too short a program now always gives the
intended ValueError.
---
 longitudinal_tomography/tracking/programs_machine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index 515b727..1d17db4 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -315,7 +315,7 @@ class ProgramsMachine(MachineABC):
         turn = self.i0
 
         k = 0
-        while turn < nturns:
+        while turn < nturns and k < len(time):
 
             while time_interp[i + 1] <= time[k]:
                 momentum_interp.append(
@@ -333,7 +333,7 @@ class ProgramsMachine(MachineABC):
 
                 i += 1
 
-                if time_interp[i + 1] > self.t_ref:
+                if time_interp[i] >= self.t_ref:
                     turn += 1
 
             k += 1
@@ -351,7 +351,7 @@ class ProgramsMachine(MachineABC):
             initial_index = 0
 
         final_index = initial_index + nturns
-        if final_index > len(time_interp) + 1:
+        if final_index > len(time_interp):
             raise ValueError('Not enough data in momentum program to '
                              f'interpolate {nturns} turns.')
 
-- 
2.43.0


From bf393b3584631b5b062002af24e88e8a67fa7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:33 +0000
Subject: [PATCH 14/37] fix: name the counts of the bin-count binding in their
 order

The keyword arguments n_particles and n_profiles were exchanged.
---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 0cc1d87..25c0bef 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -603,16 +603,16 @@ m.def("back_project", &wrapper_back_project, back_project_docs,
 "n_particles"_a, "n_profiles"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins", &wrapper_count_particles_in_bin<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a);
+    "input_parts"_a, "input_xp"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<d_array, double>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("count_particles_in_bins_multi", &wrapper_count_particles_in_bin_multi<f_array, float>, count_particles_in_bin_docs,
-    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_particles"_a, "n_profiles"_a, "n_bins"_a, "n_centers"_a);
+    "input_parts"_a, "input_xp"_a, "input_centers"_a, "n_profiles"_a, "n_particles"_a, "n_bins"_a, "n_centers"_a);
 
 m.def("reconstruct", &wrapper_reconstruct<d_array, double>, reconstruct_docs,
 "xp"_a, "waterfall"_a, "n_iter"_a, "n_bins"_a, "n_particles"_a,
-- 
2.43.0


From 47d292a708d0c0d11617a1067b4567bee8ae55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:24 +0000
Subject: [PATCH 15/37] fix: fit the synchronous particle with the voltages of
 the fitted turn

phase_low_mch() looked up the RF voltages at the turn with the number of
the machine reference frame: with a ramped voltage the potential did not
match its derivative, nor the turn of the bunch.
---
 longitudinal_tomography/utils/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..f9f3736 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -526,7 +526,7 @@ def phase_low_mch(phase: float, machine: 'MachineABC',
 
     return phase_low(phase, bunch_phaselength, machine.vrf1_at_turn,
                      machine.vrf2_at_turn, machine.phi0, machine.h_ratio,
-                     machine.phi12, rf_turn, machine.machine_ref_frame)
+                     machine.phi12, rf_turn, rf_turn)
 
 
 def dphase_low_mch(phase: float, machine: 'MachineABC',
-- 
2.43.0


From 11809cb742e2d7093e25297d5c7d7928b552e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:26 +0000
Subject: [PATCH 16/37] fix: do not let rounding move the time limits of the
 reconstruction area

---
 longitudinal_tomography/tracking/phase_space_info.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 58f5093..2307680 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -282,9 +282,12 @@ class PhaseSpaceInfo:
                        imin: int, imax: int) \
             -> Tuple[np.ndarray, np.ndarray, int, int]:
 
-        # Maximum and minimum bin, as specified by user.
-        max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))
-        min_dtbin = int(self.machine.min_dt / self.machine.dtbin)
+        # Maximum and minimum bin, as specified by user. The limits are
+        # rounded, as (n * dtbin) / dtbin is not always exactly n.
+        max_dtbin = int(np.ceil(np.round(self.machine.max_dt
+                                         / self.machine.dtbin, 6)))
+        min_dtbin = int(np.round(self.machine.min_dt
+                                 / self.machine.dtbin, 6))
 
         if min_dtbin > imin or self.machine.full_pp_flag:
             imin = min_dtbin
-- 
2.43.0


From 7f3fb969b88a9f1977c9123ac9932f9f27451e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:01 +0000
Subject: [PATCH 17/37] fix: do not normalise the caller's profile when
 plotting

show() divided the given array in place, which is normally a row of the
measured waterfall.
---
 longitudinal_tomography/utils/tomo_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 9f0bdc0..7213209 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -131,7 +131,7 @@ def show(image: np.ndarray, diff: np.ndarray, rec_prof: np.ndarray,
     """
 
     # Normalizing recprof:
-    rec_prof[:] /= np.sum(rec_prof)
+    rec_prof = rec_prof / np.sum(rec_prof)
 
     # Creating plot
     gs = gridspec.GridSpec(4, 4)
-- 
2.43.0


From 1e9e3cfaad0787ea2b065aae7943bf1253b924c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:01 +0000
Subject: [PATCH 18/37] fix: fractional emittance of 100 % is not zero

The cumulative sum and the sum of the histogram differ by rounding, so that
the last element may not reach the sum and argmax() returned 0.
---
 longitudinal_tomography/data/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index 1b23c44..aa6d365 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -184,7 +184,7 @@ def emittance_fractional(histogram: np.ndarray,
     histogram = histogram.ravel()
     histogram[::-1].sort()
     cumsum = histogram.cumsum()
-    n_bins = np.argmax(cumsum >= fraction * histogram.sum())
+    n_bins = np.argmax(cumsum >= fraction * cumsum[-1])
 
     t_bin_width = t_bins[1] - t_bins[0]
     e_bin_width = e_bins[1] - e_bins[0]
-- 
2.43.0


From 9a1c8eb9189efb1b6ed37f8631205a00b21e7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:01 +0000
Subject: [PATCH 19/37] fix: name the offending indices in array assertion
 errors

'log_array_ok is False' compares the array object, so the list of indices
was always empty.
---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index adae17c..21982e9 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -434,7 +434,7 @@ def _assert_log_arr(log_array_ok: np.ndarray, error_class: Type[Exception],
     if not log_array_ok.all():
         error_msg = '\nError found at index: ' \
                     '{}\n'.format(
-                        np.argwhere(log_array_ok is False).flatten()
+                        np.flatnonzero(np.logical_not(log_array_ok))
                         + index_offset
                     )
         raise error_class(error_msg + msg)
-- 
2.43.0


From d75268f5ea2c693ba838046d320e016c7e76e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:01 +0000
Subject: [PATCH 20/37] fix: leave particles outside the image out of the saved
 images

Only particles lost in phase are filtered out before the reconstruction. A
particle outside the energy range of the image at some profile was added to
a neighbouring column, or aborted the run, when that profile was saved.
---
 longitudinal_tomography/utils/tomo_output.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomo_output.py b/longitudinal_tomography/utils/tomo_output.py
index 7213209..7956975 100644
--- a/longitudinal_tomography/utils/tomo_output.py
+++ b/longitudinal_tomography/utils/tomo_output.py
@@ -100,9 +100,13 @@ def create_phase_space_image(
         phase space image has the same format as from the original program.
     """
 
-    phase_space = conf.make_phase_space(xp[:, recprof].astype(np.int32),
-                          yp[:, recprof].astype(np.int32),
-                          weight, n_bins)
+    x = xp[:, recprof].astype(np.int32)
+    y = yp[:, recprof].astype(np.int32)
+    # Particles may leave the image in energy on their way to the profile.
+    inside = (x >= 0) & (x < n_bins) & (y >= 0) & (y < n_bins)
+
+    phase_space = conf.make_phase_space(x[inside], y[inside],
+                                        weight[inside], n_bins)
 
     # Removing (if any) negative areas.
     phase_space = phase_space.clip(0.0)
-- 
2.43.0


From 48f134544d9310b5fd3d665b7de78d16f797fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 21/37] fix: clear the reconstructed waterfall before each GPU
 projection

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 2 ++
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index a1f38a3..6c1b5ae 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -150,6 +150,7 @@ def reconstruct_cuda(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
+        flat_rec[:] = 0
         flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
@@ -162,6 +163,7 @@ def reconstruct_cuda(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
+    flat_rec[:] = 0
     flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index cbcd957..173f59e 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -121,6 +121,7 @@ def reconstruct_cupy(xp: cp.ndarray,
         if verbose:
             print(f"{iteration+1:3}")
 
+        flat_rec[:] = 0
         flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
         flat_rec = normalize(flat_rec, n_profiles, n_bins)
         diff_prof = find_difference_profile(flat_rec, flat_profiles)
@@ -134,6 +135,7 @@ def reconstruct_cupy(xp: cp.ndarray,
             raise RuntimeError("All of phase space got reduced to zeros")
 
     # Calculating final discrepancy
+    flat_rec[:] = 0
     flat_rec = project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins)
     flat_rec = normalize(flat_rec, n_profiles, n_bins)
     diff_prof = find_difference_profile(flat_rec, flat_profiles)
-- 
2.43.0


From 30f94bb770c2d43d902918820801c3c47289673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 22/37] fix: return the recreated GPU waterfall as profiles by
 bins

---
 longitudinal_tomography/python_routines/reconstruct_cuda.py | 2 +-
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cuda.py b/longitudinal_tomography/python_routines/reconstruct_cuda.py
index 6c1b5ae..676d356 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cuda.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cuda.py
@@ -172,6 +172,6 @@ def reconstruct_cuda(xp: cp.ndarray,
     if verbose:
         print("Done!")
 
-    return weights, discr, flat_rec
+    return weights, discr, flat_rec.reshape((n_profiles, n_bins))
 
 refresh_kernels()
\ No newline at end of file
diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index 173f59e..b22a644 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -144,4 +144,4 @@ def reconstruct_cupy(xp: cp.ndarray,
     if verbose:
         print("Done!")
 
-    return weights, discr, flat_rec
\ No newline at end of file
+    return weights, discr, flat_rec.reshape((n_profiles, n_bins))
\ No newline at end of file
-- 
2.43.0


From d482374172a188f5f6eac7e606602b813b51ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 23/37] fix: pass phi12 and h_ratio to the GPU kernels in the
 active precision

---
 .../python_routines/kick_and_drift_cuda.py                 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
index 373ef24..96d596a 100644
--- a/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
+++ b/longitudinal_tomography/python_routines/kick_and_drift_cuda.py
@@ -7,7 +7,7 @@ import numpy as np
 import cupy as cp
 import logging
 from typing import Tuple
-from ..utils.tomo_config import GPUDev
+from ..utils.tomo_config import AppConfig, GPUDev
 
 log = logging.getLogger(__name__)
 
@@ -52,7 +52,10 @@ def kick_and_drift_cuda(xp: cp.ndarray, yp: cp.ndarray,
                    ftn_out: bool,
                    callback
                    ) -> Tuple[cp.ndarray, cp.ndarray]:
-    phi12_arr = cp.full(nturns+1, phi12)
+    # The kernels take scalars and arrays in the precision they are compiled for
+    precision = AppConfig.get_precision()
+    phi12_arr = cp.full(nturns+1, phi12, dtype=precision)
+    h_ratio = precision(h_ratio)
     # Preparation end
 
     profile = rec_prof
-- 
2.43.0


From c20be0f29246df4edfea46349bafe099614ab4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 24/37] fix: use the kernels of the active precision when
 returning to the GPU

---
 longitudinal_tomography/utils/tomo_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/utils/tomo_config.py b/longitudinal_tomography/utils/tomo_config.py
index edfd5cb..0bf0701 100644
--- a/longitudinal_tomography/utils/tomo_config.py
+++ b/longitudinal_tomography/utils/tomo_config.py
@@ -87,6 +87,8 @@ class AppConfig:
 
         single_prec = True if cls._precision == np.float32 else False
         GPUDev(single_prec, gpu_id)
+        # The device may have been set up before for another precision
+        cls.load_modules_and_refresh_kernels(single_prec)
 
         from longitudinal_tomography.python_routines import kick_and_drift_cuda, reconstruct_cuda, data_treatment
 
-- 
2.43.0


From 6b316572f41ad41a5eaaff0f77a1a8a5daa95c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:29 +0000
Subject: [PATCH 25/37] fix: refuse particles outside the phase space image on
 the GPU

---
 longitudinal_tomography/python_routines/data_treatment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/python_routines/data_treatment.py b/longitudinal_tomography/python_routines/data_treatment.py
index 2468bc7..9c50067 100644
--- a/longitudinal_tomography/python_routines/data_treatment.py
+++ b/longitudinal_tomography/python_routines/data_treatment.py
@@ -9,6 +9,9 @@ def make_phase_space(xp: conf.ndarray[conf.int32],
                      yp: conf.ndarray[conf.int32],
                      weights: conf.ndarray,
                      n_bins: int, result_cpu: bool = True) -> conf.ndarray:
+    if conf.any((xp < 0) | (xp >= n_bins) | (yp < 0) | (yp >= n_bins)):
+        raise IndexError('Particle outside of the phase space image')
+
     index = yp + xp * n_bins
 
     phase_space = conf.zeros(n_bins**2)
-- 
2.43.0


From fbbb2b212f1bd0ce4e8a2a8b335e9cfc1c4c86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 26/37] fix: look at all bins for the fullest one in the CuPy
 reconstruction

---
 longitudinal_tomography/python_routines/reconstruct_cupy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/python_routines/reconstruct_cupy.py b/longitudinal_tomography/python_routines/reconstruct_cupy.py
index b22a644..664c01e 100644
--- a/longitudinal_tomography/python_routines/reconstruct_cupy.py
+++ b/longitudinal_tomography/python_routines/reconstruct_cupy.py
@@ -75,7 +75,7 @@ def reciprocal_particles(xp: cp.ndarray,
                          n_particles: int) -> cp.ndarray:
 
     rparts = count_particles_in_bin(xp, n_profiles, n_particles, n_bins)
-    max_bin_val = max_2d(rparts, n_particles, n_profiles)
+    max_bin_val = max_2d(rparts, n_bins, n_profiles)
 
     # Setting 0's to 1's to avoid zero division
     rparts = cp.where(rparts == 0, 1, rparts)
-- 
2.43.0


From fe62594e55cb35e806575384c7fe220bbd2a13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 27/37] fix: tomo_weight_clipping failed with one particle in a
 time slice

---
 longitudinal_tomography/utils/tomographics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 828a7f5..08cb2df 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -613,9 +613,7 @@ def tomo_weight_clipping(tomomachine: MachineABC, time_array: Iterable[float],
             idx_minmax = np.append(idx_minmax, idx_max)
 
         elif len(idx_in) == 1:
-            idx_minmax.append(np.where(map_tomo_y
-                                       == np.max(map_tomo_y[idx_in,
-                                                            idx_frame]))[0][0])
+            idx_minmax = np.append(idx_minmax, idx_in[0])
 
     new_weight_tomo = (new_weight_tomo
                        / np.sum(new_weight_tomo)
-- 
2.43.0


From 912e96dfcd95c8a6be4b545b5e64ec809fb218aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 28/37] fix: matched_area_calc left the range of the bucket
 potential and returned areas near zero

---
 longitudinal_tomography/utils/tomographics.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 08cb2df..1208ee6 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 import scipy.signal
 import numpy as np
 import matplotlib.pyplot as plt
-from scipy.optimize import minimize
+from scipy.optimize import minimize_scalar
 from typing import TYPE_CHECKING
 
 # Local imports
@@ -221,10 +221,13 @@ def matched_area_calc(tomomachine: MachineABC, bunch_length: float,
     urf = (tomomachine.vrf1 * (np.cos(phi_0) - np.cos(phi_array))
            + (phi_0 - phi_array) * tomomachine.vrf1 * np.sin(phi_0))
 
-    urf_level_opti = minimize(_residue_urf_length,
-                              (np.max(urf) - np.min(urf))/2 + np.min(urf),
-                              args=(bunch_length_phase, phi_array, urf, phi_0),
-                              method='Powell')['x']
+    urf_range = np.max(urf) - np.min(urf)
+    urf_level_opti = minimize_scalar(_residue_urf_length,
+                                     args=(bunch_length_phase, phi_array, urf,
+                                           phi_0),
+                                     bounds=(np.min(urf), np.max(urf)),
+                                     method='bounded',
+                                     options={'xatol': 1e-9*urf_range})['x']
 
     phi_tot, phi_right, phi_left = _urf_length_at_level(phi_array, urf, phi_0,
                                                         urf_level_opti)
-- 
2.43.0


From 78611b47281a16ad530e5cbed2388c9117b67a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:59 +0000
Subject: [PATCH 29/37] fix: keep the initial particle distribution while
 tracking

track() worked in place on the arrays held by Particles, so that
coordinates_dphi_denergy, documented to hold the initial distribution,
held the particles of the last tracked turn afterwards.
---
 longitudinal_tomography/tracking/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index cc2a13e..75b648c 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -178,8 +178,9 @@ class Tracking(ParticleTracker):
             self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
             coords = self.particles.coordinates_dphi_denergy
 
-        dphi = coords[0]
-        denergy = coords[1]
+        # The tracking works in place, the initial distribution is kept.
+        dphi = coords[0].copy()
+        denergy = coords[1].copy()
 
         self.init_dphi = dphi.copy()
         self.init_denergy = denergy.copy()
-- 
2.43.0


From eceb5d1a56c50cd43f3e15f70b2cef431ce6238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:27 +0000
Subject: [PATCH 30/37] fix: density_to_macro cleared cells of the caller's
 image

The cells below the threshold were set to zero in the array passed in.
---
 longitudinal_tomography/data/data_treatment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/data_treatment.py b/longitudinal_tomography/data/data_treatment.py
index 9b90104..22b2edf 100644
--- a/longitudinal_tomography/data/data_treatment.py
+++ b/longitudinal_tomography/data/data_treatment.py
@@ -261,7 +261,7 @@ def density_to_macro(tRange: Iterable[float], ERange: Iterable[float],
     dEbin = ERange[1] - ERange[0]
 
     sumDens = np.sum(density)
-    density[density / sumDens < threshold] = 0
+    density = np.where(density / sumDens < threshold, 0, density)
 
     prob = density.flatten()
     prob = prob / np.sum(prob)
-- 
2.43.0


From 5155e77ccc2b56e454fc4a0e119572682e7cf066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 31/37] fix: rebin raised on integer waterfalls when bins were
 left over

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..3bbf62d 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -414,6 +414,6 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     i0 = (int(nbins / rbn) - 1) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
-- 
2.43.0


From 6078e574d3f830567eb44762f25a3a1f5e4ae932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 32/37] fix: raw_data_to_profiles raised on integer waterfalls

---
 longitudinal_tomography/utils/tomo_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/utils/tomo_input.py b/longitudinal_tomography/utils/tomo_input.py
index 1e723bb..b241e25 100644
--- a/longitudinal_tomography/utils/tomo_input.py
+++ b/longitudinal_tomography/utils/tomo_input.py
@@ -482,7 +482,7 @@ def raw_data_to_profiles(waterfall: np.ndarray, machine: MachineABC, rbn: int,
     if synch_part_x is None:
         synch_part_x = machine.synch_part_x
 
-    waterfall = np.array(waterfall)
+    waterfall = np.array(waterfall, dtype=float)
     # Subtracting baseline
     waterfall[:] -= fortran.calc_baseline(waterfall, machine.beam_ref_frame)
     # Rebinning
-- 
2.43.0


From d5dbd39c7ce57d3461bfb89bfe978ae2f58cb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 33/37] fix: get_cuts wrapped around on unsigned and narrow
 integer waterfalls

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 3bbf62d..2e26433 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -195,7 +195,7 @@ def get_cuts(waterfall: Iterable[float], threshold: int = None,
         waterfall = np.array(waterfall).real
 
     n_bins = len(waterfall[0])
-    diff = np.sum(np.abs(waterfall[:, 1:] - waterfall[:, :-1]), axis=0)
+    diff = np.sum(np.abs(waterfall[:, 1:] * 1.0 - waterfall[:, :-1]), axis=0)
     diff -= diff.min()
 
     if threshold is None:
-- 
2.43.0


From 20e3b0ee038b94c4e22f71525644011f2be59c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 34/37] fix: foot tangent fits put the upper foot off the
 fitted line

---
 longitudinal_tomography/utils/tomographics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/utils/tomographics.py b/longitudinal_tomography/utils/tomographics.py
index 1208ee6..4300852 100644
--- a/longitudinal_tomography/utils/tomographics.py
+++ b/longitudinal_tomography/utils/tomographics.py
@@ -124,7 +124,7 @@ def foot_tangent_fit(y: Iterable[float], dx: float = 1) -> Tuple[float, float]:
 
     foot_left = left_index - 5*np.sum(y_left)/(-6*y_left[0] - 2*y_left[1]
                                                +2*y_left[2] + 6*y_left[3])
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     return foot_left * dx, foot_right * dx
@@ -147,7 +147,7 @@ def foot_tangent_fit_density(y: Iterable[float], x: Iterable[float],
 
     y_right = y_zero[right_index - 2:right_index + 2]
 
-    foot_right = right_index - 6*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
+    foot_right = right_index - 5*np.sum(y_right)/(-6*y_right[0] - 2*y_right[1]
                                                   +2*y_right[2] + 6*y_right[3])
 
     foot_density = np.interp(foot_right, np.arange(len(x)), x)
-- 
2.43.0


From 6d3cc2b255ed4558489bb8398c4d5df41043563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 35/37] fix: assert_array_numel_equal compared shapes, not the
 number of items

The axes of the post-processing may be one or two dimensional vectors, but
rows and columns were refused.
---
 longitudinal_tomography/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/assertions.py b/longitudinal_tomography/assertions.py
index 21982e9..a022bab 100644
--- a/longitudinal_tomography/assertions.py
+++ b/longitudinal_tomography/assertions.py
@@ -294,7 +294,7 @@ def assert_array_numel_equal(arrays: Tuple[np.ndarray, np.ndarray],
     counter = 0
     array_error_str = ''
     for i in range(len(arrays)):
-        if demanded_numel != arrays[i].shape:
+        if np.prod(demanded_numel) != arrays[i].size:
             ok = False
             array_error_str += (f'{array_names[i]} with '
                                 f'shape: {arrays[i].shape}\n')
-- 
2.43.0


From a954fa049056eaaa37f9d3680ab542a95c2dfa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 36/37] fix: emittance_fractional failed with two dimensional
 axes

They are documented, and accepted by the other figures.
---
 longitudinal_tomography/data/post_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index aa6d365..a7dc400 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -186,6 +186,10 @@ def emittance_fractional(histogram: np.ndarray,
     cumsum = histogram.cumsum()
     n_bins = np.argmax(cumsum >= fraction * cumsum[-1])
 
+    # guard against 2 dim arrays
+    t_bins = t_bins.flatten()
+    e_bins = e_bins.flatten()
+
     t_bin_width = t_bins[1] - t_bins[0]
     e_bin_width = e_bins[1] - e_bins[0]
 
-- 
2.43.0


From 3b15483802c0e66b82940cc706bf4ddc1165f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 37/37] fix: emittance_rms raised on single precision images

Standard deviations of single precision arrays, integers and the documented
arrays found no signature.
---
 longitudinal_tomography/data/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/post_process.py b/longitudinal_tomography/data/post_process.py
index a7dc400..7ec0fe6 100644
--- a/longitudinal_tomography/data/post_process.py
+++ b/longitudinal_tomography/data/post_process.py
@@ -100,7 +100,7 @@ def emittance_rms(histogram: np.ndarray,
     return emittance_rms(t_std, e_std)
 
 
-@dispatch(float, float)
+@dispatch((Number, np.ndarray), (Number, np.ndarray))
 def emittance_rms(sigma_t: Union[float, np.ndarray],
                   sigma_e: Union[float, np.ndarray]) \
         -> Union[float, np.ndarray]:
-- 
2.43.0

