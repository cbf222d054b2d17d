From 0d0b1b9cbde55a9dcc841f2b38da6deca222b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 01/22] fix: reading masked grid property data no longer
 overwrites the stored data

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..39899c7 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -160,7 +160,7 @@ class GridProperty:
             The grid property data.
         """
         masked = validate.boolean(masked, "masked")
-        data = self.data
+        data = np.copy(self.data)
 
         if masked and self.mask is not None:
             data[self.mask] = np.nan
-- 
2.43.0


From 1541920f3ee10edb764bf855ec1473b73a2d39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 02/22] fix: pass the directory when saving the diagnostics of
 a shallot grid

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index d1a05a9..343de70 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,7 +209,7 @@ class ShallotGrid:
                 gradient.save_gradient(directory)
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
-- 
2.43.0


From 5d2e707e60ffd0878cf10774d57702ea35210647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 03/22] fix: load the saved gradients of a shallot grid

---
 Shallot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 343de70..5428e81 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -247,9 +247,10 @@ class ShallotGrid:
             files = os.listdir(directory)
             
             for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
+                if os.path.isdir(f"{directory}/{f}"):
+                    gradient = GridGradient.load(f"{directory}/{f}")
                     self.gradients.append(gradient)
+            self.gradients.sort()
             
             if len(self.gradients) == 0:
                 self.gradients = None
-- 
2.43.0


From e5ca02d6bbbf87abcdcccc59309f8a1588cbded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 04/22] fix: centre the upper y limit of a ring system plot on
 y_shift

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..cca8ab3 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -697,7 +697,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From e7b48111440f3d7467213febd686038981c7aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 05/22] fix: compare the impact parameter with the actual dy of
 each grid point

---
 Shallot.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 5428e81..2450bae 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1981,19 +1981,13 @@ class ShallotGrid:
         
         # get grid parameters
         dx = self.parameters.dx.flatten()
-        x_min, x_max = dx[0], dx[-1]
         x_num = len(dx)
         
         dy = self.parameters.dy.flatten()
-        y_min, y_max = dy[0], dy[-1]
-        y_num = len(dy)
-
         rf_array = self.parameters.rf_array
         
         # construct position grid
-        yy, xx = np.mgrid[:y_num, :x_num]
-        xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy = np.repeat(dy[:, None], x_num, 1)
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-- 
2.43.0


From 93d98e61d27c7472d2d333fcbcd29a236e673018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 06/22] fix: remove each gradient once when an index is
 repeated

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 2450bae..76d91b5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1545,7 +1545,7 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
-- 
2.43.0


From 8a24ef4555c7c004cd37ca6fe6e7b3e17d70aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 07/22] fix: reject grid point indices that are one past the
 end

---
 Shallot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 76d91b5..a2f49df 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2076,11 +2076,11 @@ class ShallotGrid:
         # validations
         max_y, max_x, max_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=max_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=max_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=max_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
-- 
2.43.0


From 10a10107623b0b66e5a71c35c1734e3a341d595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 08/22] fix: NaN does not satisfy the bounds of a number or an
 array

---
 validate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..3bf09ba 100644
--- a/validate.py
+++ b/validate.py
@@ -143,6 +143,10 @@ def _number_bounds(
         raise ValueError(f"The upper_bound argument ({upper_bound:.4f}) must "
             f"be greater than the lower_bound ({lower_bound:.4f}) argument.")
 
+    # NaN lies within no bounds
+    if number != number:
+        raise ValueError(f"The {name} argument must not be NaN")
+
     # validate number bounds
     raise_error = False
     message = f"The {name} argument must be "
@@ -282,6 +286,9 @@ def _array_bounds(
         raise ValueError(f"The upper_bound argument ({upper_bound:.4f}) must "
             f"be greater than the lower_bound ({lower_bound:.4f}) argument.")
 
+    # NaN lies within no bounds
+    if np.any(array != array):
+        raise ValueError(f"The {array_name} argument must not contain NaN")
 
     # validate array bounds
     raise_error = False
-- 
2.43.0


From 34fe1e42255b5053495b262dacd9949647933cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 09/22] fix: clear the coordinate markers of the previous slice
 in the viewer

---
 GridProperty.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 39899c7..3647ac7 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -841,7 +841,8 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        for line in list(self.ax.lines):
+            line.remove()
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -849,8 +850,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.ax.plot(x, y, "ro")
\ No newline at end of file
-- 
2.43.0


From 36cdf61e876148549e26088ab03ca68906490ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 10/22] fix: remove a stale mask file when saving a grid
 property without mask

---
 GridProperty.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 3647ac7..baf521b 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -301,9 +301,11 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         np.save(f"{directory}/{filename_data}", self.data)
         
+        filename_mask = f"{filename_data}_mask"
         if self.mask is not None:
-            filename_mask = f"{filename_data}_mask"
             np.save(f"{directory}/{filename_mask}", self.mask)
+        elif os.path.exists(f"{directory}/{filename_mask}.npy"):
+            os.remove(f"{directory}/{filename_mask}.npy")
 
         self.grid_parameters.save(directory)
 
@@ -544,6 +546,8 @@ class GridGradient(GridProperty):
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
             np.save(f"{gradient_directory}/mask_values", mask_values)
+        elif os.path.exists(f"{gradient_directory}/mask_values.npy"):
+            os.remove(f"{gradient_directory}/mask_values.npy")
         
         self.grid_parameters.save(directory)
 
-- 
2.43.0


From 2ea066290c732d0b279fc739d9cce3a8c501202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 11/22] fix: restore the saved mask when loading a grid
 gradient

---
 GridProperty.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index baf521b..742ba22 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -585,6 +585,10 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From f31ebd1b0da50b371a981f96d2aa1c585b4abf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 12/22] fix: represent a grid gradient with a mask but no
 measured gradient

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 742ba22..be752b6 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -419,7 +419,7 @@ class GridGradient(GridProperty):
         
         position = f"{self.position:.4f}".rjust(7)
         lines[1] = lines[1] + f" @ pos = {position}"
-        if self.mask is not None:
+        if self.measured_gradient is not None:
             measured_gradient = f"{self.measured_gradient:.4f}".rjust(6)
             lines.append(f"measured gradient:   {measured_gradient}")
             measured_error = f"{self.measured_error:.4f}".rjust(6)
-- 
2.43.0


From 59b7d663ec4ee625b3a963d9517aa185eb38e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 13/22] fix: keep the gradients as they were when adding
 gradients fails

---
 Shallot.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index a2f49df..970231d 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1521,10 +1521,18 @@ class ShallotGrid:
 
         # convert gradients
         positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        old_gradients = None
+        if self.gradients is not None:
+            old_gradients = list(self.gradients)
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
+        try:
+            self._determine_disk_gradients(positions)
+
+            self._set_measured_gradients_and_masks(light_curve_gradients, 
+                light_curve_gradient_errors, transmission_changes)
+        except Exception:
+            self.gradients = old_gradients
+            raise
         
         self._reset_gradient_fit()
 
-- 
2.43.0


From e551eac57314fa1984a6cb6a906f1862c64dcbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 14/22] fix: validate the eclipse parameters when updating the
 gradient scaling

---
 Shallot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 970231d..84f26d1 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1635,15 +1635,21 @@ class ShallotGrid:
         The above two points are to prevent over compensation of the gradients
         that will remove potential viable solutions for the light curve fit.
         """
+        if self.gradients is None:
+            self.logger.info("no gradients found")
+            return
+
         # update orbital scale
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            self._transverse_velocity = validate.number(transverse_velocity,
+                "transverse_velocity", lower_bound=0.0)
             update_orbital_scale = True
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            self._limb_darkening = validate.number(limb_darkening,
+                "limb_darkening", lower_bound=0.0, upper_bound=1.0)
             update_orbital_scale = True
 
         # update transmission change scale
-- 
2.43.0


From 85ff101f99adb15aa4c9288f018d73a9d45a8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 15/22] fix: extend grid parameters with a single element axis

---
 GridParameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..1017cbc 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -226,8 +226,11 @@ class GridParameters:
         max_y = self.dy[-1, 0, 0]
         max_x = self.dx[0, -1, 0]
         
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
-        self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        # a single element axis is its own mirror image
+        if num_x > 1:
+            self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
+        if num_y > 1:
+            self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From 6ccfe7392f7001dbe6c38435565a3e2b28581006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 16/22] fix: restore the extended status when loading grid
 diagnostics

---
 GridDiagnostics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..0f1a290 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -191,6 +191,7 @@ class GridDiagnostics:
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
         np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/extended", np.array([self._extended]))
 
 
     @classmethod
@@ -223,6 +224,10 @@ class GridDiagnostics:
             max_y, max_x = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+
+            if os.path.exists(f"{directory}/extended.npy"):
+                extended = np.load(f"{directory}/extended.npy")
+                grid_diagnostics._extended = bool(extended[0])
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From 0996252050521fe75a5c113abc7acd30d1b84362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 17/22] fix: only delete the temporary save of a build that
 saves intermittently

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 84f26d1..cd6ac41 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1002,7 +1002,8 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From 6db20627edbd7e5219bf8e83baedae0e21e7df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 18/22] fix: refuse a saved mask that does not fit the loaded
 grid property

---
 GridProperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index be752b6..fcb3f49 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -346,7 +346,7 @@ class GridProperty:
             filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
             if os.path.exists(f"{filepath_mask}"):
                 mask = np.load(f"{filepath_mask}")
-                grid_property.mask = mask
+                grid_property.set_mask(mask)
             
             grid_property.set_contrast_parameters()
 
-- 
2.43.0


From 19a85783a5be943748b51b29f45e0e730e518aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 19/22] fix: represent a grid property without any values

---
 GridProperty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index fcb3f49..e3bb57c 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -108,8 +108,11 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        min_value_string = f"{self.vmin:.4f}".rjust(13)
-        max_value_string = f"{self.vmax:.4f}".rjust(13)
+        # the contrast limits are None if all values are NaN
+        min_value = np.nan if self.vmin is None else self.vmin
+        max_value = np.nan if self.vmax is None else self.vmax
+        min_value_string = f"{min_value:.4f}".rjust(13)
+        max_value_string = f"{max_value:.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
-- 
2.43.0


From 94093b198d9a3fa19a19ec84643e8a213e84bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 20/22] fix: keep the gradient values that belong to the mask
 when an update fails

---
 GridProperty.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index e3bb57c..2252443 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -502,6 +502,40 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
+        old_values = (self.measured_gradient, self.orbital_scale,
+            self.transmission_change, self.measured_error)
+
+        try:
+            self._update_mask(measured_gradient, orbital_scale,
+                transmission_change, measured_error)
+        except Exception:
+            # the mask still belongs to the old values
+            (self.measured_gradient, self.orbital_scale,
+                self.transmission_change, self.measured_error) = old_values
+            raise
+
+ 
+    def _update_mask(self,
+            measured_gradient: float,
+            orbital_scale: float,
+            transmission_change: float,
+            measured_error: float
+        ) -> None:
+        """
+        This method sets the values that scale the gradient and the mask (see
+        determine_mask).
+
+        Parameters
+        ----------
+        measured_gradient : float
+            Measured light curve gradient.
+        orbital_scale : float
+            Scale factor of the measured gradient.
+        transmission_change : float
+            Change in transmission over the gradient.
+        measured_error : float
+            Error on the measured gradient.
+        """
         self.measured_gradient = validate.number(measured_gradient, 
             "measured_gradient", lower_bound=0)
         
-- 
2.43.0


From 5bb930d10b72f771a4638ffb2e392534b7cb3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 21/22] fix: keep the gradient scaling as it was when an update
 fails

---
 Shallot.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index cd6ac41..59e859e 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1640,6 +1640,37 @@ class ShallotGrid:
             self.logger.info("no gradients found")
             return
 
+        old_scaling = (self._transverse_velocity, self._limb_darkening)
+        old_values = [dict(vars(gradient)) for gradient in self.gradients]
+
+        try:
+            self._rescale_gradients(transverse_velocity, limb_darkening,
+                transmission_changes)
+        except Exception:
+            self._transverse_velocity, self._limb_darkening = old_scaling
+            for gradient, values in zip(self.gradients, old_values):
+                vars(gradient).update(values)
+            raise
+
+ 
+    def _rescale_gradients(self,
+            transverse_velocity: float,
+            limb_darkening: float,
+            transmission_changes: np.ndarray
+        ) -> None:
+        """
+        This method applies new scaling factors to all the gradients (see
+        update_gradient_scaling).
+
+        Parameters
+        ----------
+        transverse_velocity : float
+            Velocity of the disk [R*/day].
+        limb_darkening : float
+            Linear limb darkening parameter [-].
+        transmission_changes : np.ndarray (float 1-D)
+            Changes in transmission of the gradients.
+        """
         # update orbital scale
         update_orbital_scale = False
         
-- 
2.43.0


From f8deb8cb2c6e65247e498c5c07ee81bc556b4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 22/22] fix: keep the eclipse parameters as they were when
 setting them fails

---
 Shallot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 59e859e..d54ed27 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1582,6 +1582,12 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
+        # set nothing unless all the parameters are valid
+        validate.number(transverse_velocity, "transverse_velocity", 
+            lower_bound=0.)
+        validate.number(limb_darkening, "limb_darkening", lower_bound=0., 
+            upper_bound=1.)
+
         self._eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
         self._transverse_velocity = validate.number(transverse_velocity, 
-- 
2.43.0

