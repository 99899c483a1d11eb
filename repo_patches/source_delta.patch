From f919e479c6063d599c89d02c3a27e50bc93bc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 01/42] fix: GridProperty.get_data returns a copy so that a
 masked read does not destroy the stored data

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..39899c7 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -160,7 +160,7 @@ class GridProperty:
             The grid property data.
         """
         masked = validate.boolean(masked, "masked")
-        data = self.data
+        data = np.copy(self.data)
 
         if masked and self.mask is not None:
             data[self.mask] = np.nan
-- 
2.43.0


From 4a5d0f950378e26b2aaafc53c54ce62ceae84d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 02/42] fix: determine_closest_grid_point compares the impact
 parameter with the real dy of each row

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index d1a05a9..10bd1e9 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1992,7 +1992,7 @@ class ShallotGrid:
         # construct position grid
         yy, xx = np.mgrid[:y_num, :x_num]
         xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy = np.repeat(dy[:, None], x_num, 1)
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 0a92622b98581c62404bd06e7d7ac8bc6a342cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 03/42] fix: remove_gradients removes each listed gradient once
 when an index is repeated

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 10bd1e9..a10ef79 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1544,7 +1544,7 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
-- 
2.43.0


From 873eef66ab72ba451e0d7eb6abc2723f57e23bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 04/42] fix: an empty gradients list counts as no gradients for
 remove_gradients and determine_gradient_fit

---
 Shallot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index a10ef79..52ca7e2 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1538,7 +1538,7 @@ class ShallotGrid:
             Contains all the indices that should be removed from the gradients
             list.
         """
-        if self.gradients is None:
+        if not self.gradients:
             self.logger.info("no gradients found")
             return
 
@@ -1742,7 +1742,7 @@ class ShallotGrid:
             Whether or not to weigh the individual r.m.s. values of the
             gradient fit. This is done by the square of the error.
         """
-        if self.gradients is None:
+        if not self.gradients:
             self.logger.info("no gradients present")
             return
         
-- 
2.43.0


From d4e53260c238f58cf07e5c14c8d7d981312048c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 05/42] fix: set_eclipse_parameters changes nothing when one of
 the parameters is rejected

---
 Shallot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 52ca7e2..55fe946 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1572,12 +1572,17 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
-        self._eclipse_duration = validate.number(eclipse_duration, 
+        eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
-        self._transverse_velocity = validate.number(transverse_velocity, 
+        transverse_velocity = validate.number(transverse_velocity, 
             "transverse_velocity", lower_bound=0.)
-        self._limb_darkening = validate.number(limb_darkening, 
+        limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
+
+        # only change the parameters once all of them are known to be valid
+        self._eclipse_duration = eclipse_duration
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
         
         # gradients and gradient fit reset due to eclipse duration dependency
         if self.gradients is not None:
-- 
2.43.0


From cef7dea378df0e81895f3709a78a6463fb13da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 06/42] fix: a rejected add_gradients leaves no
 half-initialised gradients behind

---
 Shallot.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 55fe946..bc409b5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1520,10 +1520,17 @@ class ShallotGrid:
 
         # convert gradients
         positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        previous_gradients = self.gradients
+        if previous_gradients is not None:
+            self.gradients = list(previous_gradients)
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
+        try:
+            self._determine_disk_gradients(positions)
+            self._set_measured_gradients_and_masks(light_curve_gradients, 
+                light_curve_gradient_errors, transmission_changes)
+        except Exception:
+            self.gradients = previous_gradients
+            raise
         
         self._reset_gradient_fit()
 
-- 
2.43.0


From 6e79a49f281e1496a7abddc824c863253b58d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 07/42] fix: a rejected determine_mask leaves the gradient as
 it was

---
 GridProperty.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 39899c7..9fa463f 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -497,23 +497,31 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
-        self.measured_gradient = validate.number(measured_gradient, 
-            "measured_gradient", lower_bound=0)
-        
-        self.orbital_scale = validate.number(orbital_scale, 
-            "orbital_scale", lower_bound=0)
-        
-        if transmission_change is None:
-            transmission_change = 1
-        self.transmission_change = validate.number(transmission_change, 
-            "transmission_change", lower_bound=0, upper_bound=1)
+        previous_state = self.__dict__.copy()
+
+        try:
+            self.measured_gradient = validate.number(measured_gradient, 
+                "measured_gradient", lower_bound=0)
+            
+            self.orbital_scale = validate.number(orbital_scale, 
+                "orbital_scale", lower_bound=0)
+            
+            if transmission_change is None:
+                transmission_change = 1
+            self.transmission_change = validate.number(transmission_change, 
+                "transmission_change", lower_bound=0, upper_bound=1)
 
-        if measured_error is None:
-            measured_error = 1
-        self.measured_error = validate.number(measured_error, "measured_error",
-            lower_bound=0.)
+            if measured_error is None:
+                measured_error = 1
+            self.measured_error = validate.number(measured_error, 
+                "measured_error", lower_bound=0.)
+
+            scaled_gradient = self.get_scaled_gradient()
+        except Exception:
+            # a rejected measurement may not leave a half updated gradient
+            self.__dict__.update(previous_state)
+            raise
 
-        scaled_gradient = self.get_scaled_gradient()
         mask = (scaled_gradient > self.data).astype(float)
         mask += np.isnan(self.data).astype(float)
         self.mask = mask.astype(bool)
-- 
2.43.0


From 24550a56495aa02286e9a3e525ea2134b859789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 08/42] fix: update_gradient_scaling validates its input and
 changes nothing when it is rejected

---
 Shallot.py | 56 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index bc409b5..aced157 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1642,13 +1642,17 @@ class ShallotGrid:
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            transverse_velocity = validate.number(transverse_velocity, 
+                "transverse_velocity", lower_bound=0.)
             update_orbital_scale = True
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            limb_darkening = validate.number(limb_darkening, "limb_darkening",
+                lower_bound=0., upper_bound=1.)
             update_orbital_scale = True
 
+        gradients = self.gradients or []
+
         # update transmission change scale
         update_transmission_change = False
         if transmission_changes is not None:
@@ -1656,7 +1660,7 @@ class ShallotGrid:
                 "transmission_changes", dtype="float64", num_dimensions=1, 
                 lower_bound=-1, upper_bound=1)
 
-            arrays_list = [transmission_changes, np.array(self.gradients)]
+            arrays_list = [transmission_changes, np.array(gradients)]
             names_list = ["transmission_changes", "gradients"]
             validate.same_shape_arrays(arrays_list, names_list)
             
@@ -1666,22 +1670,38 @@ class ShallotGrid:
             self.logger.info("no changes passed")
             return
         
-        for k, gradient in enumerate(self.gradients):
-            # select orbital scale
-            if update_orbital_scale:
-                orbital_scale = self._determine_orbital_scale()
-            else:
-                orbital_scale = gradient.orbital_scale
-
-            # select transmission scale
-            if update_transmission_change:
-                transmission_change = transmission_changes[k]
-            else:
-                transmission_change = gradient.transmission_change
+        # a rejected update must leave the parameters and gradients as they were
+        previous_parameters = (self._transverse_velocity, self._limb_darkening)
+        previous_states = [gradient.__dict__.copy() for gradient in gradients]
 
-            # update mask
-            gradient.determine_mask(gradient.measured_gradient, orbital_scale, 
-                transmission_change, gradient.measured_error)
+        try:
+            if transverse_velocity is not None:
+                self._transverse_velocity = transverse_velocity
+            if limb_darkening is not None:
+                self._limb_darkening = limb_darkening
+
+            for k, gradient in enumerate(gradients):
+                # select orbital scale
+                if update_orbital_scale:
+                    orbital_scale = self._determine_orbital_scale()
+                else:
+                    orbital_scale = gradient.orbital_scale
+
+                # select transmission scale
+                if update_transmission_change:
+                    transmission_change = transmission_changes[k]
+                else:
+                    transmission_change = gradient.transmission_change
+
+                # update mask
+                gradient.determine_mask(gradient.measured_gradient, 
+                    orbital_scale, transmission_change, 
+                    gradient.measured_error)
+        except Exception:
+            self._transverse_velocity, self._limb_darkening = previous_parameters
+            for gradient, previous_state in zip(gradients, previous_states):
+                gradient.__dict__.update(previous_state)
+            raise
         
         self._reset_gradient_fit()
         
-- 
2.43.0


From c86cd8c2f63b898a6dfc6cf55dc954319362bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 09/42] fix: building a ShallotGrid does not modify the
 caller's GridParameters

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index aced157..68ba694 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from enum import Enum
 
 # generic modules
+import copy
 import os
 import shutil
 import logging
@@ -96,7 +97,7 @@ class ShallotGrid:
         # set user values
         parameters = validate.class_object(parameters, "parameters", 
             GridParameters, "GridParameters")
-        self.parameters = parameters
+        self.parameters = copy.deepcopy(parameters)
         self.num_fxfy = validate.number(num_fxfy, "num_fxfy",
             check_integer=True, lower_bound=1)
 
-- 
2.43.0


From fa5562d9843fb4dd214741f434118278786ad512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 10/42] fix: add_ring and replace_ring store a copy instead of
 modifying and sharing the caller's Ring

---
 RingSystem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..ff3f4e9 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,4 +1,5 @@
 # generic modules
+import copy
 import logging
 import numpy as np
 import matplotlib.pyplot as plt
@@ -430,6 +431,9 @@ class RingSystem:
             self.logger.info(f"ring tilt overridden from {ring.tilt:.2f} to "
                 f"{self.tilt:.2f}")
 
+        # change a copy so that neither the passed ring nor another ring system
+        # that contains it is affected
+        ring = copy.copy(ring)
         ring.inclination = self.inclination
         ring.tilt = self.tilt
         
-- 
2.43.0


From 62e732fd119d31caac727e8cfee1663ed44049a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 11/42] fix: RingSystem.plot centres the y limits on y_shift

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index ff3f4e9..881253b 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -701,7 +701,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From ab307e7ec1060a4e2304e27e5752a9ddfe4f7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 12/42] fix: a grid that keeps diagnostics can be saved

---
 Shallot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 68ba694..8dcc5e2 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -197,6 +197,11 @@ class ShallotGrid:
                 lower_bound=0, upper_bound=y_upper_bound)
             np.save(f"{directory}/y_value", np.array([y_value]))
 
+        # the diagnostics come before the data that is needed for a load, so that
+        # an interrupted save can not be loaded without its diagnostics
+        if self.diagnostics is not None:
+            self.diagnostics.save(directory)
+
         np.save(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
         self.parameters.save(directory)
         self.disk_radius.save(directory)
@@ -209,9 +214,6 @@ class ShallotGrid:
             for gradient in self.gradients:
                 gradient.save_gradient(directory)
 
-        if self.diagnostics is not None:
-            self.diagnostics.save()
-
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
-- 
2.43.0


From 90b7730aac2d2c4368d85077e76e489c9de81e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 13/42] fix: extended diagnostics are still extended after a
 save and a load

---
 GridDiagnostics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..b89148e 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,11 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            # not available for diagnostics saved by earlier versions
+            if os.path.exists(f"{directory}/extended.npy"):
+                extended = np.load(f"{directory}/extended.npy")
+                grid_diagnostics._extended = bool(extended[0])
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From 38911fbf23e99538a2a3dbb0ba155765bcd8d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 14/42] fix: loading a grid with damaged diagnostics fails
 instead of dropping the diagnostics

---
 Shallot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 8dcc5e2..6e76f1b 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -240,9 +240,10 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
-        try:
+        diagnostic_files = ["fy_dict.npy", "disk_radius_dict.npy", "max_yx.npy"]
+        if any(os.path.exists(f"{directory}/{f}") for f in diagnostic_files):
             self.diagnostics = GridDiagnostics.load(directory)
-        except LoadError:
+        else:
             self.logger.debug("no diagnostics found")
         
         try:
-- 
2.43.0


From 0e95bbb6439989506ab2096532d3de0416fb5d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 15/42] fix: the gradients of a saved grid are restored, in
 order, when it is loaded

---
 Shallot.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 6e76f1b..cf5f3ed 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -211,8 +211,12 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            # a folder per gradient, as positions need not be unique
+            for k, gradient in enumerate(self.gradients):
+                gradient_directory = f"{directory}/gradients_{k}"
+                if not os.path.exists(gradient_directory):
+                    os.mkdir(gradient_directory)
+                gradient.save_gradient(gradient_directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
@@ -246,19 +250,18 @@ class ShallotGrid:
         else:
             self.logger.debug("no diagnostics found")
         
-        try:
-            self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
-            
-            if len(self.gradients) == 0:
-                self.gradients = None
-        
-        except LoadError:
+        self.gradients = []
+        while os.path.exists(f"{directory}/gradients_{len(self.gradients)}"):
+            parent = f"{directory}/gradients_{len(self.gradients)}"
+            folders = [f for f in os.listdir(parent) 
+                if os.path.isdir(f"{parent}/{f}")]
+            if len(folders) != 1:
+                raise LoadError("gradient", parent)
+            gradient = GridGradient.load(f"{parent}/{folders[0]}")
+            self.gradients.append(gradient)
+
+        if len(self.gradients) == 0:
+            self.gradients = None
             self.logger.debug("no gradients found")
 
 
-- 
2.43.0


From 5fcb6b654b69cdf8dbcaefef658a3ffd736aef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 16/42] fix: an interrupted build with intermittent saving can
 be resumed from its temporary folder

---
 Shallot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index cf5f3ed..c222be3 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -296,6 +296,8 @@ class ShallotGrid:
         
         if os.path.exists(f"{directory}/y_value.npy"):
             y_value = np.load(f"{directory}/y_value.npy")[0]
+            if os.path.realpath(directory) != os.path.realpath(TEMP_SAVE_DIR):
+                grid._create_temp_save_dir()
             grid._build_grid(intermittent_saving=True, start_y=y_value)
 
         grid._extend_grid()
@@ -959,7 +961,8 @@ class ShallotGrid:
         if start_y == 0:
             self._initialise_grid_properties()
 
-        if intermittent_saving:
+        # a resumed build relies on the data that is saved there
+        if intermittent_saving and start_y == 0:
             self._create_temp_save_dir()
 
         # extract parameters
@@ -1008,7 +1011,8 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From 6cc493997966e4e545f7d41da9d229aebd0220dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 17/42] fix: the viewer only shows the points of the current
 slice and works with current matplotlib

---
 GridProperty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 9fa463f..571de5d 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -655,6 +655,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.markers = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -849,7 +850,10 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # remove the points of the previously shown slice
+        for marker in self.markers:
+            marker.remove()
+        self.markers = []
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -857,8 +861,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.markers.extend(self.ax.plot(x, y, "ro"))
\ No newline at end of file
-- 
2.43.0


From c1962e6156d12a52e4732c14417c8bf9539b26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 18/42] fix: saving an unmasked property over a masked one does
 not bring the old mask back

---
 GridProperty.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 571de5d..e54f02b 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -301,9 +301,12 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         np.save(f"{directory}/{filename_data}", self.data)
         
+        filename_mask = f"{filename_data}_mask"
         if self.mask is not None:
-            filename_mask = f"{filename_data}_mask"
             np.save(f"{directory}/{filename_mask}", self.mask)
+        elif os.path.exists(f"{directory}/{filename_mask}.npy"):
+            # left by an earlier save of this property
+            os.remove(f"{directory}/{filename_mask}.npy")
 
         self.grid_parameters.save(directory)
 
@@ -552,6 +555,9 @@ class GridGradient(GridProperty):
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
             np.save(f"{gradient_directory}/mask_values", mask_values)
+        elif os.path.exists(f"{gradient_directory}/mask_values.npy"):
+            # left by an earlier save of a gradient at this position
+            os.remove(f"{gradient_directory}/mask_values.npy")
         
         self.grid_parameters.save(directory)
 
-- 
2.43.0


From 746698d0444a659e45f14b68643bb240c56ceb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 19/42] fix: a mask set on a gradient is restored when the
 gradient is loaded

---
 GridProperty.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index e54f02b..646cc06 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -595,6 +595,10 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From 1565d8ff255d763caec4a4995fd0bfdc600a3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 20/42] fix: loading a property with a mask that does not fit
 its data fails

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 646cc06..5510101 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -347,7 +347,7 @@ class GridProperty:
             filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
             if os.path.exists(f"{filepath_mask}"):
                 mask = np.load(f"{filepath_mask}")
-                grid_property.mask = mask
+                grid_property.set_mask(mask)
             
             grid_property.set_contrast_parameters()
 
-- 
2.43.0


From 805691d624c73405a4a6c9d7828e185f28e8d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 21/42] fix: a rejected extend_grid leaves the grid parameters
 as they were

---
 GridParameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..a2b69f1 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -226,8 +226,9 @@ class GridParameters:
         max_y = self.dy[-1, 0, 0]
         max_x = self.dx[0, -1, 0]
         
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
-        self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        extended_dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
+        extended_dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        self.dx, self.dy = extended_dx, extended_dy
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From 5a4f66c8f65d5504b80a66e17323280ea7cd05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 22/42] fix: a nan is rejected by a number validation with
 bounds

---
 validate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..a540424 100644
--- a/validate.py
+++ b/validate.py
@@ -158,6 +158,11 @@ def _number_bounds(
         upper = np.greater_equal
         message_addition = "than"
 
+    # a nan is not within any bounds
+    if number != number and (lower_bound > -np.inf or upper_bound < np.inf):
+        raise_error = True
+        message = message + "a number, not nan"
+
     # try lower bound
     if lower(number, lower_bound):
         raise_error = True
-- 
2.43.0


From 4ff659c74179530f78f3e775346315b9d36eb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 23/42] fix: a nan is rejected by an array validation with
 bounds

---
 validate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validate.py b/validate.py
index a540424..991ef65 100644
--- a/validate.py
+++ b/validate.py
@@ -304,6 +304,11 @@ def _array_bounds(
         message_addition = "than"
 
     # try lower bound
+    if ((lower_bound > -np.inf or upper_bound < np.inf) 
+            and np.any(array != array)):
+        raise_error = True
+        message = message + "that are not nan and "
+
     if np.any(lower(array, lower_bound)):
         raise_error = True
         addition = f"greater {message_addition} {lower_bound:.4f} and "
-- 
2.43.0


From 3c9dc239f3b7285e7bd690032b8b74ad441263ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 24/42] fix: properties without valid data and masked but
 unmeasured gradients can be printed

---
 GridProperty.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 5510101..0079c48 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -108,8 +108,12 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        min_value_string = f"{self.vmin:.4f}".rjust(13)
-        max_value_string = f"{self.vmax:.4f}".rjust(13)
+        # the limits are not defined when there is no valid data
+        vmin = np.nan if self.vmin is None else self.vmin
+        vmax = np.nan if self.vmax is None else self.vmax
+
+        min_value_string = f"{vmin:.4f}".rjust(13)
+        max_value_string = f"{vmax:.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
@@ -420,7 +424,7 @@ class GridGradient(GridProperty):
         
         position = f"{self.position:.4f}".rjust(7)
         lines[1] = lines[1] + f" @ pos = {position}"
-        if self.mask is not None:
+        if self.measured_gradient is not None:
             measured_gradient = f"{self.measured_gradient:.4f}".rjust(6)
             lines.append(f"measured gradient:   {measured_gradient}")
             measured_error = f"{self.measured_error:.4f}".rjust(6)
-- 
2.43.0


From fc38adad2158f59e9e3eb577542988c57ae8718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 25/42] fix: extend_grid gives an exact mirror image, so that
 the origin stays at 0

---
 GridParameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GridParameters.py b/GridParameters.py
index a2b69f1..4c04cf3 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -228,6 +228,11 @@ class GridParameters:
         
         extended_dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
         extended_dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        # an exact mirror image, so that the centre is exactly 0
+        extended_dx[:, :num_x] = -np.flip(self.dx, 1)
+        extended_dy[:num_y] = -np.flip(self.dy, 0)
+        extended_dx[:, num_x - 1:] = self.dx
+        extended_dy[num_y - 1:] = self.dy
         self.dx, self.dy = extended_dx, extended_dy
         self._set_grid_and_slice_shape()
         self._set_extendable()
-- 
2.43.0


From 04b94eff06db4f3c74f02c5a276aae76086a02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 26/42] fix: a nan minimum or maximum of a grid axis is
 rejected

---
 GridParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 4c04cf3..3e22da7 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -124,7 +124,7 @@ class GridParameters:
         """
         min_x = validate.number(min_x, "min_x")
         max_x = validate.number(max_x, "max_x")
-        if min_x >= max_x:
+        if not min_x < max_x:
             raise ValueError("max_x must be greater than min_x")
         num_x = validate.number(num_x, "num_x", check_integer=True, 
             lower_bound=1)
@@ -157,7 +157,7 @@ class GridParameters:
         """
         min_y = validate.number(min_y, "min_y")
         max_y = validate.number(max_y, "max_y")
-        if min_y >= max_y:
+        if not min_y < max_y:
             raise ValueError("max_y must be greater than min_y")
         num_y = validate.number(num_y, "num_y", check_integer=True, 
             lower_bound=1)
-- 
2.43.0


From 0c7ae8fd239dbfb4d7e33a6d8d2aa237725c4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 27/42] fix: fy is undefined where the grid has no ellipse

---
 Shallot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index c222be3..13441a8 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -908,6 +908,9 @@ class ShallotGrid:
             fy_interp_y[1:]), 0)
         fx_valid = self._determine_fx(fy_valid)[y, 0, :]
 
+        # no ellipse exists where fx is undefined, so neither does fy
+        fy_valid[np.isnan(fx_valid)] = np.nan
+
         return fx_valid, fy_valid
 
  
-- 
2.43.0


From 4d8c5cd1433d914c67cd9fec6c84049405e03d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 28/42] fix: the gradient of a ring edge perpendicular to the
 path is 1

---
 Shallot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 13441a8..5918ced 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1367,6 +1367,10 @@ class ShallotGrid:
             mask = (denominator != 0)
             tangent[mask] = (numerator[mask] / denominator[mask])
 
+            # the ring edge is perpendicular to the path (e.g. at the origin)
+            tangent[~mask & (numerator != 0)] = np.inf
+
+
             # set tangent
             disk_gradient = np.abs(np.sin(np.arctan2(tangent, 1)))
             
-- 
2.43.0


From d4c55f66825f4004664e56f34cfd0f13416e22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 29/42] fix: unmasked grid point data hid the disk radius
 beyond the hill radius

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 5918ced..8c88dff 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2138,7 +2138,8 @@ class ShallotGrid:
             lower_bound=0, upper_bound=max_rf)
 
         # disk information
-        disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
+        disk_radius = self.get_disk_radius(masked, masked)[y_index, x_index,
+            rf_index]
         inclination = self.get_inclination(masked)[y_index, x_index, rf_index]
         tilt = self.get_tilt(masked)[y_index, x_index, rf_index]
         dx = self.parameters.dx.flatten()[x_index]
-- 
2.43.0


From 6e7927ae64b387ba50ff3a129def1adc32c76ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 30/42] fix: an unmasked closest grid point search skipped
 points beyond the hill radius

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 8c88dff..9d8cbe8 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2024,7 +2024,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         
         # get sjalot parameters
-        grid_disk_radius = self.get_disk_radius(masked)
+        grid_disk_radius = self.get_disk_radius(masked, masked)
         grid_inclination = self.get_inclination(masked)
         grid_tilt = self.get_tilt(masked)
         
-- 
2.43.0


From 39381723efb4de0497275558bf0761a0080ea19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 31/42] fix: a partially deleted checkpoint could be loaded as
 a complete grid

---
 Shallot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 9d8cbe8..bb1f2ce 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -697,10 +697,7 @@ class ShallotGrid:
         This method is used to create the temporary save folder used for
         intermittent saving during the building of the grid.
         """
-        if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
-            self.logger.debug("cleared temp folder")
-        
+        self._delete_temp_save_dir()
         os.mkdir(TEMP_SAVE_DIR)
 
  
@@ -710,6 +707,12 @@ class ShallotGrid:
         intermittent saving during the building of the grid.
         """
         if os.path.exists(TEMP_SAVE_DIR):
+            # no grid can be loaded without this file, so that a partially
+            # deleted folder is never mistaken for a complete grid
+            num_fxfy_file = f"{TEMP_SAVE_DIR}/num_fxfy.npy"
+            if os.path.exists(num_fxfy_file):
+                os.remove(num_fxfy_file)
+
             shutil.rmtree(TEMP_SAVE_DIR)
             self.logger.debug("deleted temp folder")
 
-- 
2.43.0


From 5ae8ecc4207213e93e46e0a5dab145f2be85b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 32/42] fix: resuming a build at its first row deleted the
 checkpoint

---
 Shallot.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index bb1f2ce..a7bf57f 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -939,7 +939,7 @@ class ShallotGrid:
  
     def _build_grid(self, 
             intermittent_saving: bool, 
-            start_y: int = 0
+            start_y: int = None
         ) -> None:
         """
         This method is used to build the shallot grid. It does this grid point
@@ -954,9 +954,14 @@ class ShallotGrid:
             progress after every y iteration. This is useful for very large
             refined grids.
         start_y : int
-            This is the integer to start the y building of the grid at 
-            [default = 0 --> new grid].
+            This is the integer to start the y building of the grid at when
+            the build is resumed [default = None --> new grid].
         """
+        # a resumed build relies on the data that was loaded and is saved
+        new_grid = start_y is None
+        if new_grid:
+            start_y = 0
+
         # validate
         intermittent_saving = validate.boolean(intermittent_saving, 
             "intermittent_saving")
@@ -964,11 +969,10 @@ class ShallotGrid:
             lower_bound=0, upper_bound=len(self.parameters.dy))
 
         # properties
-        if start_y == 0:
+        if new_grid:
             self._initialise_grid_properties()
 
-        # a resumed build relies on the data that is saved there
-        if intermittent_saving and start_y == 0:
+        if intermittent_saving and new_grid:
             self._create_temp_save_dir()
 
         # extract parameters
-- 
2.43.0


From 9714050898f377ebdc66c0b1275c6dad34267cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 33/42] fix: a grid with an axis below 1 was built from scale
 factors out of order

---
 Shallot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index a7bf57f..0b22c8a 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -755,7 +755,8 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dx.max()
+        # the scale factors start at 1
+        max_value = max(self.parameters.dx.max(), 1)
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
@@ -827,7 +828,8 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dy.max()
+        # the scale factors start at 1
+        max_value = max(self.parameters.dy.max(), 1)
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
-- 
2.43.0


From b01a23065588e9c5a197a29d51f2fd2553bb337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 34/42] fix: two objects created after equal seeding of numpy
 shared a logger

---
 RingSystem.py | 4 +++-
 Shallot.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 881253b..6cec418 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,6 +1,7 @@
 # generic modules
 import copy
 import logging
+import uuid
 import numpy as np
 import matplotlib.pyplot as plt
 from matplotlib.patches import Circle
@@ -167,7 +168,8 @@ class RingSystem:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        # (the name is unique and leaves numpy's random numbers alone)
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
diff --git a/Shallot.py b/Shallot.py
index 0b22c8a..56c70dd 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -7,6 +7,7 @@ import copy
 import os
 import shutil
 import logging
+import uuid
 import numpy as np
 from tqdm import tqdm
 
@@ -340,7 +341,8 @@ class ShallotGrid:
             check_integer=True, lower_bound=10, upper_bound=50)
 
         # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        # (the name is unique and leaves numpy's random numbers alone)
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
-- 
2.43.0


From 3531416f1a371c75998692b50013f8c43ae3660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 35/42] fix: rejected contrast parameters changed those before
 the invalid one

---
 GridProperty.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 0079c48..987e566 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -200,26 +200,32 @@ class GridProperty:
         all_nans = np.sum(np.isnan(self.data)) == np.prod(self.data.shape)
         
         if all_nans:
-            self.vmin = None
-            self.vmax = None
+            vmin = None
+            vmax = None
         else:
             if vmin is None:
                 vmin = np.nanmin(self.data)
-            self.vmin = validate.number(vmin, "vmin")       
+            vmin = validate.number(vmin, "vmin")       
         
             if vmax is None:
                 vmax = np.nanmax(self.data)
-            self.vmax = validate.number(vmax, "vmax")
+            vmax = validate.number(vmax, "vmax")
         
         if color_map is None:
             color_map = "viridis"
-        self.color_map = validate.string(color_map, "color_map")
+        color_map = validate.string(color_map, "color_map")
         
         if num_colors is None:
             num_colors = 11
-        self.num_colors = validate.number(num_colors, "num_colors", 
+        num_colors = validate.number(num_colors, "num_colors", 
             check_integer=True, lower_bound=2)
 
+        # only change the parameters once all of them are known to be valid
+        self.vmin = vmin
+        self.vmax = vmax
+        self.color_map = color_map
+        self.num_colors = num_colors
+
  
     def plot_cube(self, 
             axis: int = 2, 
-- 
2.43.0


From 8056f3c950ffefad881cdb74c0871a3e173f8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 36/42] fix: the smallest disks of a grid with rf = 1 only were
 not the smallest

---
 Shallot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 56c70dd..b16cd2a 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -781,7 +781,8 @@ class ShallotGrid:
 
             # continue?
             disk_radius_fraction = disk_radius / np.nanmin(disk_radius_full)
-            if disk_radius_fraction[0] < max_rf:
+            # (the curve must go beyond its minimum, also if the largest rf is 1)
+            if disk_radius_fraction[0] < max_rf or disk_radius_fraction[0] == 1:
                 shift += 1
             else: 
                 repeat = False
@@ -854,7 +855,8 @@ class ShallotGrid:
 
             # continue?
             disk_radius_fraction = disk_radius / np.nanmin(disk_radius_full)
-            if disk_radius_fraction[-1] < max_rf:
+            # (the curve must go beyond its minimum, also if the largest rf is 1)
+            if disk_radius_fraction[-1] < max_rf or disk_radius_fraction[-1] == 1:
                 shift += 1
             else: 
                 repeat = False
-- 
2.43.0


From cdf479f4b3802e9cf67f666ec8ac4a874bfabd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 37/42] fix: get_grid_point_data accepted an index equal to the
 size and failed later

---
 Shallot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index b16cd2a..2088e22 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2142,13 +2142,13 @@ class ShallotGrid:
             gradients : np.ndarray (float 1-D) [-]
         """
         # validations
-        max_y, max_x, max_rf = self.parameters.grid_shape
+        num_y, num_x, num_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=num_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=num_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=num_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked, masked)[y_index, x_index,
-- 
2.43.0


From 2f4057af87b2c6770c2b69538c3d8b0f78e8b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 38/42] fix: a rejected GridProperty.save left a folder or
 files behind

---
 GridProperty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 987e566..18c7488 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -305,6 +305,8 @@ class GridProperty:
         directory : str
             File path for the saved information.
         """
+        directory = validate.string(directory, "directory")
+
         if not os.path.exists(directory):
             os.mkdir(directory)
 
-- 
2.43.0


From d61fab70cafa88a33c00dc8397b8a9beae3a700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:32 +0000
Subject: [PATCH 39/42] fix: a rejected GridPropertyViewer had already drawn in
 the given axes

---
 GridProperty.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 18c7488..ff760af 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -677,6 +677,8 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        if frozen is not None:
+            frozen = validate.boolean(frozen, "frozen")
         self.markers = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
@@ -703,7 +705,7 @@ class GridPropertyViewer:
         self.frozen = False
         self.update()
         if frozen is not None:
-            self.frozen = validate.boolean(frozen, "frozen")
+            self.frozen = frozen
 
  
     def __str__(self) -> str:
-- 
2.43.0


From 1c7ff873636c90fb2b70e9893a8248200b32fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 40/42] fix: replace_ring with a boolean index replaced all
 rings

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 6cec418..650749d 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -508,7 +508,7 @@ class RingSystem:
         ring = self._override_ring_geometry(ring)
         debug_before = self._print_changes("replace_ring()", before=True)
 
-        self.rings[index] = ring
+        self.rings[int(index)] = ring
 
         debug_after = self._print_changes("replace_ring()", before=False)
         self.logger.debug(debug_before + debug_after)
-- 
2.43.0


From 514b8aa70e668e056445816d726e36116b568841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 41/42] fix: a loaded grid showed its tilt in colours that do
 not meet at 180 degrees

---
 Shallot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Shallot.py b/Shallot.py
index 2088e22..ecfd6f4 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -291,6 +291,7 @@ class ShallotGrid:
 
 
         grid._load_grid_attributes(directory)
+        grid._set_grid_property_contrast_parameters()
         grid._determine_circular_radius()
         grid._determine_shear()
         grid._set_logger(logging_level)
-- 
2.43.0


From 0d505f457873ffdfcd108a7486943c38e7ed4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 42/42] fix: the ringlets of a split overlapped by rounding

Neighbouring ringlets computed their common edge in two ways, so that in
many splits they overlapped in the last digit and replacing one by a ring
with the very same radii was refused.
---
 RingSystem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 650749d..7c5c451 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -545,11 +545,13 @@ class RingSystem:
             # for type hints
             ring: Ring
             
-            delta_radius = (ring.outer_radius - ring.inner_radius) / division
+            # neighbouring ringlets share their edge exactly (no overlap)
+            edges = np.linspace(ring.inner_radius, ring.outer_radius, 
+                division + 1)
 
             for i in range(division):
-                ringlet_inner_radius = ring.inner_radius + i * delta_radius
-                ringlet_outer_radius = ringlet_inner_radius + delta_radius
+                ringlet_inner_radius = edges[i]
+                ringlet_outer_radius = edges[i + 1]
                 
                 ringlet = Ring(ringlet_inner_radius, ringlet_outer_radius, 
                     ring.transmission, self.inclination, self.tilt)
-- 
2.43.0

