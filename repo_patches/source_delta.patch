From a4e953f73959aa4de0143feae308f3189548cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 01/35] fix: do not count points beyond the grid edge as ones
 in neighbourhood sums

Where the neighbourhood sum is limited to a box around the values that are not
one, the box was padded with ones on every side, including the sides formed by
the edge of the grid, so values near the edge were counted as too high.
---
 improver/nbhood/nbhood.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/improver/nbhood/nbhood.py b/improver/nbhood/nbhood.py
index d69a799..50194cd 100644
--- a/improver/nbhood/nbhood.py
+++ b/improver/nbhood/nbhood.py
@@ -344,7 +344,6 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         ystart = xstart = 0
         ystop, xstop = data.shape
         size = data.size
-        extreme = 0
         fill_value = 0
         half_nb_size = self.nb_size // 2
         # For the two extreme values, 0 and 1, find the size and position of the smallest array
@@ -371,9 +370,8 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
                 _xstop = min(data_shape[1], _xstop + half_nb_size)
             _size = (_ystop - _ystart) * (_xstop - _xstart)
             if _size < size:
-                size, extreme, fill_value, ystart, ystop, xstart, xstop = (
+                size, fill_value, ystart, ystop, xstart, xstop = (
                     _size,
-                    _extreme,
                     _fill_value,
                     _ystart,
                     _ystop,
@@ -390,14 +388,19 @@ class NeighbourhoodProcessing(BaseNeighbourhoodProcessing):
         if size:
             # The subset of data is non-zero in size, so calculate the neighbourhood sums in the
             # subset.
-            data = data[ystart:ystop, xstart:xstop]
-
             # Calculate neighbourhood totals for input data.
             if self.neighbourhood_method == "square":
-                data = boxsum(
-                    data, self.nb_size, mode="constant", constant_values=extreme
-                )
+                # Include all data within the neighbourhoods of the points in the subset, so
+                # that only points beyond the edge of the grid are treated as zero.
+                ypad, xpad = min(ystart, half_nb_size), min(xstart, half_nb_size)
+                box = data[
+                    ystart - ypad : ystop + half_nb_size,
+                    xstart - xpad : xstop + half_nb_size,
+                ]
+                box = boxsum(box, self.nb_size, mode="constant", constant_values=0)
+                data = box[ypad : ypad + ystop - ystart, xpad : xpad + xstop - xstart]
             elif self.neighbourhood_method == "circular":
+                data = data[ystart:ystop, xstart:xstop]
                 data = correlate(data, self.kernel, mode="nearest")
         else:
             data = untrimmed
-- 
2.43.0


From a63a9f40548c5a81ce97c824fe9d6c62c8ed306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 02/35] fix: temporal interpolation over windows of a day or
 more

timedelta.seconds drops whole days, so interval checks and solar
interpolation weights were wrong for windows of 24 hours or longer.
---
 improver/utilities/temporal_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..05a6ee9 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -215,7 +215,7 @@ class TemporalInterpolation(BasePlugin):
                 )
             time_list = self.times
         elif self.interval_in_minutes is not None:
-            if (final_time - initial_time).seconds % (
+            if (final_time - initial_time).total_seconds() % (
                 60 * self.interval_in_minutes
             ) != 0:
                 msg = (
@@ -223,7 +223,7 @@ class TemporalInterpolation(BasePlugin):
                     " divide into the interval of"
                     " {} mins equally.".format(
                         self.interval_in_minutes,
-                        int((final_time - initial_time).seconds / 60),
+                        int((final_time - initial_time).total_seconds() / 60),
                     )
                 )
                 raise ValueError(msg)
@@ -356,7 +356,7 @@ class TemporalInterpolation(BasePlugin):
         dtval_next = dtvals[1]
         sin_phi_next = self.calc_sin_phi(dtval_next, lats, lons)
         # Length of time between beginning and end in seconds
-        diff_step = (dtval_next - dtval_prev).seconds
+        diff_step = (dtval_next - dtval_prev).total_seconds()
 
         for single_time in interpolated_cube.slices_over("time"):
             # Calculate sine of solar elevation for cube at this
@@ -364,7 +364,7 @@ class TemporalInterpolation(BasePlugin):
             dtval_interp = iris_time_to_datetime(single_time.coord("time"))[0]
             sin_phi_interp = self.calc_sin_phi(dtval_interp, lats, lons)
             # Length of time between beginning and interpolated time in seconds
-            diff_interp = (dtval_interp - dtval_prev).seconds
+            diff_interp = (dtval_interp - dtval_prev).total_seconds()
             # Set all values to 0.0, to be replaced
             # with values calculated through this solar method.
             single_time.data[:] = 0.0
-- 
2.43.0


From 1579feee57f7f09268a548db51012c998f9ae220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 03/35] fix: interpolated accumulations are zero, not NaN,
 where nothing fell

The renormalisation divided zero by zero at points with no accumulation in
either period.
---
 improver/utilities/temporal_interpolation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index 05a6ee9..12ae382 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -510,7 +510,12 @@ class TemporalInterpolation(BasePlugin):
         # total expressed in the longer original period.
         (time_coord,) = interpolated_cube.coord_dims("time")
         interpolated_total = np.sum(interpolated_cube.data, axis=time_coord)
-        renormalisation = period_reference.data / interpolated_total
+        renormalisation = np.divide(
+            period_reference.data,
+            interpolated_total,
+            out=np.zeros_like(interpolated_total),
+            where=interpolated_total != 0,
+        )
         interpolated_cube.data *= renormalisation
         interpolated_cube.data = interpolated_cube.data.astype(FLOAT_DTYPE)
 
-- 
2.43.0


From f94d3f81937211ceeb951b8b243f9352d7cdd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 04/35] fix: day-night mask of each period uses that period's
 own mid-point

With several bounded times, every slice used the bounds of the first time.
---
 improver/utilities/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/solar.py b/improver/utilities/solar.py
index 1db25ec..d1eb7e3 100644
--- a/improver/utilities/solar.py
+++ b/improver/utilities/solar.py
@@ -394,7 +394,7 @@ class DayNightMask(BasePlugin):
         modified_masks = iris.cube.CubeList()
         for mask_cube in daynight_mask.slices_over("time"):
             if mask_cube.coord("time").has_bounds():
-                lb, ub = cube.coord("time").cell(0).bound
+                lb, ub = mask_cube.coord("time").cell(0).bound
                 dtval = lb + (ub - lb) / 2
             else:
                 dtval = mask_cube.coord("time").cell(0).point
-- 
2.43.0


From 030054b4cf16795127968f07a9f3128319dfb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 05/35] fix: take the point mask of percentiles/probabilities
 after putting their dimension first

---
 .../ensemble_copula_coupling.py                    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..76b5faa 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -336,13 +336,14 @@ class ResamplePercentiles(BasePlugin):
             percentile_coord_name
         ).points
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_at_percentiles.data):
             original_mask = forecast_at_percentiles.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_at_percentiles, percentile_coord_name)
         forecast_at_reshaped_percentiles = convert_cube_data_to_2d(
             forecast_at_percentiles, coord=percentile_coord_name
         )
@@ -618,13 +619,14 @@ class ConvertProbabilitiesToPercentiles(BasePlugin):
         threshold_points = threshold_coord.points
         threshold_name = threshold_coord.name()
 
+        # Ensure that the percentile dimension is first, so that the
+        # conversion to a 2d array produces data in the desired order.
+        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
+
         original_mask = None
         if np.ma.is_masked(forecast_probabilities.data):
             original_mask = forecast_probabilities.data.mask[0]
 
-        # Ensure that the percentile dimension is first, so that the
-        # conversion to a 2d array produces data in the desired order.
-        enforce_coordinate_ordering(forecast_probabilities, threshold_name)
         prob_slices = convert_cube_data_to_2d(
             forecast_probabilities, coord=threshold_name
         )
-- 
2.43.0


From 76deffb243ba2b63084bff428f9803443235bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 06/35] fix: reorder ensembles holding several times (the
 random state was reused as the seed)

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 76b5faa..72db95f 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1402,14 +1402,14 @@ class EnsembleReordering(BasePlugin):
             the ranking from the raw ensemble.
         """
         results = iris.cube.CubeList([])
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From 7698fa1e69e0c2978d4169644e02e91e47ae2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 07/35] fix: do not rescale already rescaled shape parameters
 when a plugin is reused

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 72db95f..26c6bca 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -875,6 +875,10 @@ calculate_truncated_normal_crps`,
                 )
             shape_parameters = []
         self.shape_parameters = shape_parameters
+        # The shape parameters as specified. These are kept separately, as
+        # self.shape_parameters is rescaled for each set of location and scale
+        # parameters.
+        self._specified_shape_parameters = shape_parameters
 
     def __repr__(self) -> str:
         """Represent the configured plugin instance as a string."""
@@ -915,7 +919,7 @@ calculate_truncated_normal_crps`,
         """
         if self.distribution.name == "truncnorm":
             rescaled_values = []
-            for value in self.shape_parameters:
+            for value in self._specified_shape_parameters:
                 rescaled_values.append((value - location_parameter) / scale_parameter)
             self.shape_parameters = rescaled_values
 
-- 
2.43.0


From 50d16fb0b84544b4302c851e3f9284f913101a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 08/35] fix: directions just below zero degrees are 0, not 360

---
 improver/utilities/complex_conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/complex_conversion.py b/improver/utilities/complex_conversion.py
index b44ee60..1ad6eb9 100644
--- a/improver/utilities/complex_conversion.py
+++ b/improver/utilities/complex_conversion.py
@@ -60,7 +60,8 @@ def complex_to_deg(complex_in: ndarray) -> ndarray:
     angle = np.angle(complex_in, deg=True)
 
     # Convert angles so they are in the range [0, 360)
-    angle = np.mod(np.float32(angle), 360)
+    # Take the modulus twice, as angles just below 0 are rounded to 360 by the first.
+    angle = np.mod(np.mod(np.float32(angle), 360), 360)
 
     # We don't need 64 bit precision.
     angle = angle.astype(np.float32)
-- 
2.43.0


From ebec0d5c6366b80c0411c6a68eeae2cebafb66b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 09/35] fix: wind direction means of a plugin used again do not
 include its earlier results

---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From 4d6588d3a44ed0c93231854ca21b9f653a900b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 10/35] fix: resolving wind components leaves the direction
 cube unaltered

---
 improver/wind_calculations/wind_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_components.py b/improver/wind_calculations/wind_components.py
index 9c6d8bb..22d7ea4 100644
--- a/improver/wind_calculations/wind_components.py
+++ b/improver/wind_calculations/wind_components.py
@@ -138,6 +138,7 @@ class ResolveWindComponents(BasePlugin):
             - Cube containing wind vector component in the positive
               y-direction v_speed
         """
+        angle = angle.copy()
         angle.convert_units("radians")
         angle.data += adj
 
-- 
2.43.0


From ada16cdde5663fa409316700d5464126b578f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 11/35] fix: applying a mask leaves the mask cube unaltered

---
 improver/utilities/mask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..9d0138c 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -54,7 +54,9 @@ def apply_mask(
     cubes.remove(mask)
     cube = cubes[0]
 
-    # Ensure mask is in a boolean form and invert if requested
+    # Ensure mask is in a boolean form and invert if requested, leaving the cube
+    # provided unaltered
+    mask = mask.copy()
     mask.data = mask.data.astype(np.bool)
     if invert_mask:
         mask.data = ~mask.data
-- 
2.43.0


From 4a27c13d9697cef8d679e96662ce4f03099c68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 12/35] fix: inverting probabilities renames the comparison
 only, not the diagnostic

---
 improver/utilities/probability_manipulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/probability_manipulation.py b/improver/utilities/probability_manipulation.py
index 9c8f304..b83c804 100644
--- a/improver/utilities/probability_manipulation.py
+++ b/improver/utilities/probability_manipulation.py
@@ -140,9 +140,9 @@ def invert_probabilities(cube: Cube) -> Cube:
     ] = new_inequality
 
     new_name = (
-        cube.name().replace("above", "below")
-        if "above" in cube.name()
-        else cube.name().replace("below", "above")
+        cube.name().replace("above_threshold", "below_threshold")
+        if "above_threshold" in cube.name()
+        else cube.name().replace("below_threshold", "above_threshold")
     )
     inverted_probabilities.rename(new_name)
 
-- 
2.43.0


From 9b9bba91e51cab547a5d7a0734af23980577dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 13/35] fix: accumulation periods of one input do not carry
 over to the next

---
 improver/nowcasting/accumulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/nowcasting/accumulation.py b/improver/nowcasting/accumulation.py
index 4e59842..24c73a2 100644
--- a/improver/nowcasting/accumulation.py
+++ b/improver/nowcasting/accumulation.py
@@ -55,6 +55,7 @@ class Accumulation(BasePlugin):
         self.accumulation_units = accumulation_units
         self.accumulation_period = accumulation_period
         self.forecast_periods = forecast_periods
+        self._requested_periods = (accumulation_period, forecast_periods)
 
     def __repr__(self) -> str:
         """Represent the plugin instance as a string."""
@@ -112,6 +113,9 @@ class Accumulation(BasePlugin):
             ValueError: The specified accumulation period is not cleanly
                 divisible by the time interval.
         """
+        # Discard any periods derived from the inputs of an earlier call.
+        self.accumulation_period, self.forecast_periods = self._requested_periods
+
         # Standardise inputs to expected units
         standardised_cubes = []
         for cube in cubes:
-- 
2.43.0


From 9f980404cb23810bfe0681e544ab94d133728f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 14/35] fix: lapse rate spread tests are computed in double
 precision

---
 improver/lapse_rate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/improver/lapse_rate.py b/improver/lapse_rate.py
index 7c562a6..f106584 100644
--- a/improver/lapse_rate.py
+++ b/improver/lapse_rate.py
@@ -361,9 +361,10 @@ class LapseRate(BasePlugin):
             )
 
             # Checks that the standard deviations are not 0
-            # i.e. there is some variance to fit a gradient to.
-            tempcheck = np.isclose(np.nanstd(temp, axis=axis), 0)
-            orogcheck = np.isclose(np.nanstd(orog, axis=axis), 0)
+            # i.e. there is some variance to fit a gradient to. Calculated at
+            # double precision so that equal values have no rounding variance.
+            tempcheck = np.isclose(np.nanstd(temp, axis=axis, dtype=np.float64), 0)
+            orogcheck = np.isclose(np.nanstd(orog, axis=axis, dtype=np.float64), 0)
             # checks that our central point in the neighbourhood
             # is not nan
             temp_nan_check = np.isnan(temp[..., cnpt, cnpt])
-- 
2.43.0


From 42ddcc16fd458a920f275e72a7424314adefe440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 15/35] fix: vicinity fill value for integer fields is the
 lowest, not the highest

---
 improver/utilities/spatial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/spatial.py b/improver/utilities/spatial.py
index 5655e8e..08ebd95 100644
--- a/improver/utilities/spatial.py
+++ b/improver/utilities/spatial.py
@@ -743,8 +743,9 @@ def maximum_within_vicinity(
         vicinity defined using the specified radius.
     """
     # Value, the negative of which is used to fill masked points, ensuring
-    # that when we take a maximum the masked points do not contribute.
-    fill_value = netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf)
+    # that when we take a maximum the masked points do not contribute. The
+    # default fill values of integer types are negative.
+    fill_value = abs(netCDF4.default_fillvals.get(grid.dtype.str[1:], np.inf))
 
     # Convert the grid_point_radius into a number of points along an edge
     # length, including the central point, e.g. grid_point_radius = 1,
-- 
2.43.0


From e6de982d942dc586b122b81e0bf77acba2a0e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 16/35] fix: reliability tables keep points whose truth is
 missing at some times only

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..5de8410 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -407,7 +407,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if np.ma.is_masked(truth.data) or np.ma.is_masked(threshold_reliability):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
-- 
2.43.0


From 0baa08c449f054145fd57bc57cf2f0f7e281b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 17/35] fix: Combine takes the default name from each set of
 inputs

---
 improver/cube_combiner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..a3bbc57 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
-- 
2.43.0


From 3c1c792aa9ba1b8edd249568702025035188ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 18/35] fix: threshold broadcasting follows the threshold
 coordinate of each set of inputs

---
 improver/cube_combiner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index a3bbc57..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -355,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From fbd28f85346917f67fd480377397c67455eacb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:42 +0000
Subject: [PATCH 19/35] fix: a single realization is combined with every
 realization of the first cube

---
 improver/cube_combiner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 02861be..f441a85 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -314,6 +314,9 @@ class CubeCombiner(BasePlugin):
         if (
             "realization" in [crd.name() for crd in result.coords(dim_coords=True)]
             and self.broadcast != "realization"
+            and all(
+                c.coord("realization") == result.coord("realization") for c in cube_list
+            )
         ):
             rslices = iris.cube.CubeList(result.slices_over("realization"))
             for cube in cube_list[1:]:
-- 
2.43.0


From 38ad4d641078880463069f8b573f782eab65fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 20/35] fix: sums and differences in decision tree expressions
 are taken in order

a - b + c was evaluated as a - (b + c).
---
 improver/categorical/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..a34471b 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -701,10 +701,10 @@ class ApplyDecisionTree(BasePlugin):
                         + curr_expression[idx + 1 :]
                     )
             # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            for op_strs in ["/", "*", "+-"]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and item in op_strs:
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -715,7 +715,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From f20c60a51d18a71d4635992a015c48428fa7bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 21/35] fix: decision tree nodes with one destination for both
 outcomes are followed

Skipping a missing optional diagnostic can leave a node's two outcomes with the
same destination; only points failing the node's test were given a category.
---
 improver/categorical/decision_tree.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a34471b..1259514 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -841,14 +841,22 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
-                    if current.get("if_false") == next_node:
+                    if "leaf" in current.keys() or (
+                        current["if_true"] == current["if_false"]
+                    ):
+                        # This node does not choose between routes.
+                        continue
+
+                    if current["if_false"] == next_node:
 
                         (
                             current["threshold_condition"],
                             current["condition_combination"],
                         ) = self.invert_condition(current)
-                    if "leaf" not in current.keys():
-                        conditions.append(self.create_condition_chain(current))
+                    conditions.append(self.create_condition_chain(current))
+                if not conditions:
+                    categories.data[...] = category_code
+                    continue
                 test_chain = [conditions, "AND"]
 
                 # Set grid locations to suitable category
-- 
2.43.0


From 43ee6b448e264c38dea122e991fbfe4a1725de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:12 +0000
Subject: [PATCH 22/35] fix: ApplyDecisionTree starts each set of inputs from
 the tree as defined

A missing optional diagnostic changed the plugin's tree for later inputs, and
the caller's tree was modified so that it could not be used again.
---
 improver/categorical/decision_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 1259514..eedbf1c 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -120,6 +120,7 @@ class ApplyDecisionTree(BasePlugin):
         or snowfall rate could not trigger it.
         """
 
+        decision_tree = copy.deepcopy(decision_tree)
         self.model_id_attr = model_id_attr
         self.record_run_attr = record_run_attr
         node_names = list(decision_tree.keys())
@@ -130,6 +131,7 @@ class ApplyDecisionTree(BasePlugin):
         self.queries = update_tree_thresholds(
             {k: v for k, v in decision_tree.items() if k != "meta"}, target_period
         )
+        self._all_queries, self._first_node = self.queries, self.start_node
         self.float_tolerance = 0.01
         self.float_abs_tolerance = 1e-12
         # flag to indicate whether to expect "threshold" as a coordinate name
@@ -806,6 +808,11 @@ class ApplyDecisionTree(BasePlugin):
         Returns:
             A cube of categorical data.
         """
+        # Each set of inputs starts from the tree as it was defined.
+        self.queries = copy.deepcopy(self._all_queries)
+        self.start_node = self._first_node
+        self.coord_named_threshold = False
+
         # Check input cubes contain required data and return only those that
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
-- 
2.43.0


From 5845eb0656bf62d2183e38ed936bb7f2fee23f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 23/35] fix: modal categories of grids with a single row or
 column

---
 improver/categorical/modal_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..12b2285 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -166,7 +166,7 @@ class ModalCategory(BasePlugin):
         mode_result[counts < minimum_significant_count] = (
             self.code_max - self.unset_code_indicator
         )
-        return self.code_max - np.squeeze(mode_result)
+        return self.code_max - mode_result.reshape(data.shape[1:])
 
     @staticmethod
     def _set_blended_times(cube: Cube) -> None:
-- 
2.43.0


From a14169c0f834c2f75ab5e055fb38252acfaa04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:44 +0000
Subject: [PATCH 24/35] fix: forecast period bounds where each time has its own
 reference time

With two times the reference times were subtracted from the two ends of each
period instead of from each period; other numbers of times failed.
---
 improver/metadata/forecast_times.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index f05c9ec..a2be4a6 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -125,7 +125,9 @@ def _calculate_forecast_period(
 
     if time_coord.bounds is not None:
         time_bounds = np.array([c.bound for c in time_coord.cells()])
-        required_lead_time_bounds = time_bounds - forecast_reference_time_points
+        required_lead_time_bounds = (
+            time_bounds - forecast_reference_time_points[:, np.newaxis]
+        )
         required_lead_time_bounds = np.array(
             [[b.total_seconds() for b in x] for x in required_lead_time_bounds]
         )
-- 
2.43.0


From 7e4e10ca3fde50abe20713671f1bbbba9f47f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:59 +0000
Subject: [PATCH 25/35] fix: enforcing consistency leaves the reference
 forecast in its own units

---
 improver/utilities/forecast_reference_enforcement.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/utilities/forecast_reference_enforcement.py b/improver/utilities/forecast_reference_enforcement.py
index 594dfa0..cb9c818 100644
--- a/improver/utilities/forecast_reference_enforcement.py
+++ b/improver/utilities/forecast_reference_enforcement.py
@@ -120,6 +120,7 @@ class EnforceConsistentForecasts(PostProcessingPlugin):
         """
 
         # check forecast and reference units match
+        reference_forecast = reference_forecast.copy()
         try:
             reference_forecast.convert_units(forecast.units)
         except ValueError:
-- 
2.43.0


From e46310d33701615bb8e34bc585d9c90e908a01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:39 +0000
Subject: [PATCH 26/35] fix: filling missing bias values leaves the bias data
 it is given alone

---
 improver/calibration/simple_bias_correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..760f3dd 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -84,7 +84,7 @@ def apply_additive_correction(
         An array containing the corrected forecast values.
     """
     if fill_masked_bias_values and isinstance(bias.data, ma.masked_array):
-        bias.data = ma.MaskedArray.filled(bias.data, 0.0)
+        bias = bias.copy(data=ma.MaskedArray.filled(bias.data, 0.0))
     corrected_forecast = forecast - bias
     return corrected_forecast.data
 
-- 
2.43.0


From 3b008476340e162cb2c4d718ea634cc793f89443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 27/35] fix: advection treats a source beyond the last grid
 point as out of bounds

Sources less than one grid length beyond the last row or column were
accepted, but the points past the edge add nothing, so the advected
value was only a fraction of the edge value.
---
 improver/nowcasting/forecasting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index 0dda7f2..bd66fbe 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -189,7 +189,11 @@ class AdvectField(BasePlugin):
             """Check point (y, x) lies within defined bounds"""
             return (x >= 0.0) & (x < nx) & (y >= 0.0) & (y < ny)
 
-        cond_pt = point_in_bounds(xsrc_point_frac, ysrc_point_frac, xdim, ydim)
+        cond_pt = (
+            point_in_bounds(xsrc_point_frac, ysrc_point_frac, xdim, ydim)
+            & (xsrc_point_frac <= xdim - 1)
+            & (ysrc_point_frac <= ydim - 1)
+        )
         adv_field[cond_pt] = 0
 
         # Find the integer points surrounding the fractional source coordinates
-- 
2.43.0


From adbecc24586483ac423555a98e48a7c3051e6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:26 +0000
Subject: [PATCH 28/35] fix: advection needs only the source points that carry
 weight

A missing point next to a source that lies exactly on a grid point was
given zero weight, but zero times nan is nan, so valid points were
masked, with no flow at all as well.
---
 improver/nowcasting/forecasting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/nowcasting/forecasting.py b/improver/nowcasting/forecasting.py
index bd66fbe..bc5bd5b 100644
--- a/improver/nowcasting/forecasting.py
+++ b/improver/nowcasting/forecasting.py
@@ -219,6 +219,8 @@ class AdvectField(BasePlugin):
         for xpt, xwt in zip(x_points, x_weights):
             for ypt, ywt in zip(y_points, y_weights):
                 cond = point_in_bounds(xpt, ypt, xdim, ydim) & cond_pt
+                # points without weight are not needed, even if they are missing
+                cond = cond & (xwt > 0) & (ywt > 0)
                 self._increment_output_array(
                     data, adv_field, cond, xgrid, ygrid, xpt, ypt, xwt, ywt
                 )
-- 
2.43.0


From 6f8c81a4b9c839e98c350db731c395ddbc37f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 29/35] fix: integration limits of zero are limits too

---
 improver/utilities/mathematical_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/mathematical_operations.py b/improver/utilities/mathematical_operations.py
index df6e16f..c1b6b63 100644
--- a/improver/utilities/mathematical_operations.py
+++ b/improver/utilities/mathematical_operations.py
@@ -242,12 +242,12 @@ class Integration(BasePlugin):
             """Conditions under which a slice should not be included in
             the integrated total.  All inputs (except the string "direction")
             are floats."""
-            if start_point:
+            if start_point is not None:
                 if direction and lower_bound < start_point:
                     return True
                 if not direction and upper_bound > start_point:
                     return True
-            if end_point:
+            if end_point is not None:
                 if direction and upper_bound > end_point:
                     return True
                 if not direction and lower_bound < end_point:
-- 
2.43.0


From 9f2c35e3671af2971deea98b941b797c76cab3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 30/35] fix: fuzzy thresholds in a vicinity do not see values
 under the mask

---
 improver/threshold.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/threshold.py b/improver/threshold.py
index 5aba3af..4a12f42 100644
--- a/improver/threshold.py
+++ b/improver/threshold.py
@@ -406,6 +406,9 @@ class Threshold(PostProcessingPlugin):
                     clip=True,
                 ),
             )
+            # np.where does not retain a mask
+            if np.ma.is_masked(cube.data):
+                truth_value = np.ma.masked_array(truth_value, mask=cube.data.mask)
             # if requirement is for probabilities less_than or
             # less_than_or_equal_to the threshold (rather than
             # greater_than or greater_than_or_equal_to), invert
-- 
2.43.0


From 1efcce43a22d01b7558014d1727392c5c6af5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:29 +0000
Subject: [PATCH 31/35] fix: cycles without weight are left out of a blend

---
 improver/blending/calculate_weights_and_blend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..6373f7b 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,13 +192,15 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                # use the cell's point for consistency with the constraint below,
+                # as iris represents the cells of time coordinates as datetimes
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
 
         constraint = iris.Constraint(
-            coord_values={self.blend_coord: lambda x: x not in slice_out_vals}
+            coord_values={self.blend_coord: lambda x: x.point not in slice_out_vals}
         )
         cube = cube.extract(constraint)
         weights = weights.extract(constraint)
-- 
2.43.0


From 39244b4ee538ad9fcc8aad88f702b778f206af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:15 +0000
Subject: [PATCH 32/35] fix: band neighbourhoods are reused only for the same
 data, mask and lead time

---
 improver/nbhood/use_nbhood.py | 38 ++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/improver/nbhood/use_nbhood.py b/improver/nbhood/use_nbhood.py
index f1c4c33..dec3298 100644
--- a/improver/nbhood/use_nbhood.py
+++ b/improver/nbhood/use_nbhood.py
@@ -12,6 +12,7 @@ import numpy.ma as ma
 from iris.cube import Cube
 
 from improver import PostProcessingPlugin
+from improver.metadata.forecast_times import forecast_period_coord
 from improver.nbhood.nbhood import NeighbourhoodProcessing
 from improver.utilities.cube_checker import (
     check_cube_coordinates,
@@ -192,6 +193,33 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         result.remove_coord(self.coord_for_masking)
         return result
 
+    def _same_neighbourhoods(self, first: Cube, second: Cube) -> bool:
+        """
+        Check whether two slices have the same neighbourhood processing result,
+        which depends on their data, mask and, if the radii vary with lead
+        time, on their forecast periods.
+
+        Args:
+            first:
+                A 2D slice of the input cube.
+            second:
+                Another 2D slice of the input cube.
+
+        Returns:
+            True if the result for one slice can be used for the other.
+        """
+        if not np.array_equal(first.data, second.data):
+            return False
+        if not np.array_equal(
+            ma.getmaskarray(first.data), ma.getmaskarray(second.data)
+        ):
+            return False
+        if not self.lead_times:
+            return True
+        return np.array_equal(
+            *(forecast_period_coord(cube).points for cube in (first, second))
+        )
+
     def process(self, cube: Cube, mask_cube: Cube) -> Cube:
         """
         Apply neighbourhood processing with a mask to the input cube,
@@ -228,13 +256,17 @@ class ApplyNeighbourhoodProcessingWithAMask(PostProcessingPlugin):
         # Take 2D slices of the input cube for memory issues.
         prev_x_y_slice = None
         for x_y_slice in cube.slices([yname, xname]):
-            if prev_x_y_slice is not None and np.array_equal(
-                prev_x_y_slice.data, x_y_slice.data
+            if prev_x_y_slice is not None and self._same_neighbourhoods(
+                prev_x_y_slice, x_y_slice
             ):
                 # Use same result as last time!
                 prev_result = result_slices[-1].copy()
                 for coord in x_y_slice.coords(dim_coords=False):
-                    prev_result.coord(coord).points = coord.points.copy()
+                    prev_coord = prev_result.coord(coord)
+                    prev_coord.bounds = None
+                    prev_coord.points = coord.points.copy()
+                    if coord.has_bounds():
+                        prev_coord.bounds = coord.bounds.copy()
                 result_slices.append(prev_result)
                 continue
             prev_x_y_slice = x_y_slice
-- 
2.43.0


From 9848984d0611df8b1958d8e753c6a94211bd6968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:47 +0000
Subject: [PATCH 33/35] fix: regridding interpolates up to the last row and
 column of the source grid

---
 improver/regrid/bilinear.py | 99 ++-----------------------------------
 1 file changed, 4 insertions(+), 95 deletions(-)

diff --git a/improver/regrid/bilinear.py b/improver/regrid/bilinear.py
index 6b13018..0c8347d 100644
--- a/improver/regrid/bilinear.py
+++ b/improver/regrid/bilinear.py
@@ -86,8 +86,10 @@ def basic_indexes(
     # Calculate input/output offset, expressed in terms of the spacing
     n_lat = (out_latlons[:, 0] - in_latlons[0, 0]) // lat_spacing
     m_lon = (out_latlons[:, 1] - in_latlons[0, 1]) // lon_spacing
-    n_lat = n_lat.astype(int)
-    m_lon = m_lon.astype(int)
+    # Target points on the upper boundaries of the source grid belong to the last cells
+    in_lats_size = in_latlons.shape[0] // in_lons_size
+    n_lat = np.clip(n_lat.astype(int), 0, in_lats_size - 2)
+    m_lon = np.clip(m_lon.astype(int), 0, in_lons_size - 2)
 
     # Four surrounding input points for each output point, in a rectangle shape
     index1 = n_lat * in_lons_size + m_lon
@@ -99,99 +101,6 @@ def basic_indexes(
     # note: lat (X) but ordering  (lat0, lon0)(lat0,lon1)....(lat0,lon_last),(lat1,lon0),
     indexes = np.transpose([index1, index2, index3, index4])
 
-    # if identical max latitude and/or longitude between source/target grids,index algorithm
-    # needs change at relevant boundary
-    lat_max_in, lon_max_in = in_latlons.max(axis=0)
-    lat_max_out, lon_max_out = out_latlons.max(axis=0)
-
-    lat_max_equal = np.isclose(lat_max_in, lat_max_out)
-    lon_max_equal = np.isclose(lon_max_in, lon_max_out)
-
-    if lat_max_equal or lon_max_equal:
-        indexes = adjust_boundary_indexes(
-            in_lons_size,
-            lat_max_equal,
-            lon_max_equal,
-            lat_max_in,
-            lon_max_in,
-            out_latlons,
-            indexes,
-        )
-
-    return indexes
-
-
-def adjust_boundary_indexes(
-    in_lons_size: int,
-    lat_max_equal: bool,
-    lon_max_equal: bool,
-    lat_max_in: float,
-    lon_max_in: float,
-    out_latlons: ndarray,
-    indexes: ndarray,
-) -> ndarray:
-    """
-    Adjust surrounding source point indexes for boundary target points.
-    it is required when maximum latitude and logitude are identical between
-    source and target grids.
-
-    Args:
-        in_lons_size:
-            Source grid's longitude dimension.
-        lat_max_equal:
-            Whether maximum latitude is identical between source/targin grids.
-        lon_max_equal:
-            Whether maximum longitude is identical between source/targin grids.
-        lat_max_in:
-            Input grid's maximum latitude.
-        lon_max_in:
-            Input grid's maximum longtitude.
-        out_latlons:
-            Target points's latitude-longitudes.
-        indexes:
-            Updated array of source grid point number for all target grid points.
-
-    Returns:
-        Updated array of source grid point number for all target grid points.
-        Array shape is (total number of target points, 4).
-    """
-    # find a list of target points with its latitude
-    if lat_max_equal:
-        point_lat_max = np.where(np.isclose(out_latlons[:, 0], lat_max_in))[0]
-    if lon_max_equal:
-        point_lon_max = np.where(np.isclose(out_latlons[:, 1], lon_max_in))[0]
-
-    if lon_max_equal and lat_max_equal:
-        point_lat_lon_max_index = np.where(
-            np.isclose(out_latlons[point_lat_max, 1], lon_max_in)
-        )[0]
-
-        # if point_lat_lon_max_index exists, handle it.
-        if point_lat_lon_max_index:
-            point_lat_lon_max = point_lat_max[point_lat_lon_max_index[0]]
-            point_lat_max = np.delete(
-                point_lat_max, np.where(point_lat_max == point_lat_lon_max)[0]
-            )
-            point_lon_max = np.delete(
-                point_lon_max, np.where(point_lon_max == point_lat_lon_max)[0]
-            )
-            indexes[point_lat_lon_max, 2] = indexes[point_lat_lon_max, 0]
-            indexes[point_lat_lon_max, 1] = indexes[point_lat_lon_max, 2] - 1
-            indexes[point_lat_lon_max, 0] = indexes[point_lat_lon_max, 1] - in_lons_size
-            indexes[point_lat_lon_max, 3] = indexes[point_lat_lon_max, 0] + 1
-
-    if lat_max_equal:
-        indexes[point_lat_max, 1] = indexes[point_lat_max, 0]
-        indexes[point_lat_max, 2] = indexes[point_lat_max, 1] + 1
-        indexes[point_lat_max, 0] = indexes[point_lat_max, 1] - in_lons_size
-        indexes[point_lat_max, 3] = indexes[point_lat_max, 0] + 1
-
-    if lon_max_equal:
-        indexes[point_lon_max, 0] = indexes[point_lon_max, 0] - 1
-        indexes[point_lon_max, 1] = indexes[point_lon_max, 1] - 1
-        indexes[point_lon_max, 2] = indexes[point_lon_max, 1] + 1
-        indexes[point_lon_max, 3] = indexes[point_lon_max, 0] + 1
-
     return indexes
 
 
-- 
2.43.0


From a68a6eb84753d4fba209916d49b43941b5ee6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:24 +0000
Subject: [PATCH 34/35] fix: freezing rain is the mean over the realizations
 common to its inputs

---
 improver/precipitation_type/freezing_rain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/precipitation_type/freezing_rain.py b/improver/precipitation_type/freezing_rain.py
index 94675a3..0c72c4f 100644
--- a/improver/precipitation_type/freezing_rain.py
+++ b/improver/precipitation_type/freezing_rain.py
@@ -293,6 +293,7 @@ class FreezingRain(PostProcessingPlugin):
 
         if n_realizations is not None:
             self._extract_common_realizations()
+            n_realizations = len(self.rain.coord("realization").points)
 
         freezing_rain_cube = self._calculate_freezing_rain_probability(n_realizations)
 
-- 
2.43.0


From 62d075b9a49b120b4c2c7619d6f1e75becee1550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:19 +0000
Subject: [PATCH 35/35] fix: ranges with negative ends keep the points at their
 ends

---
 improver/utilities/cube_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_constraints.py b/improver/utilities/cube_constraints.py
index 51aeab6..6c11cba 100644
--- a/improver/utilities/cube_constraints.py
+++ b/improver/utilities/cube_constraints.py
@@ -41,8 +41,8 @@ def create_sorted_lambda_constraint(
     """
     values = [float(i) for i in values]
     values = sorted(values)
-    values[0] = (1.0 - tolerance) * values[0]
-    values[1] = (1.0 + tolerance) * values[1]
+    values[0] = values[0] - tolerance * abs(values[0])
+    values[1] = values[1] + tolerance * abs(values[1])
     constr = iris.Constraint(
         coord_values={coord_name: lambda cell: values[0] <= cell.point <= values[1]}
     )
-- 
2.43.0

