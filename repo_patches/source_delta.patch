From 05bfd08f25d477d8fc7e8a162650f2ee474fd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 01/26] fix: honour parallax when light_delay is requested

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From 8ce4feb191c5afdec8f93ac4d73274d37b1ea7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 02/26] fix: use the right sign of the acceleration, and a root
 that does not cancel, in the light travel delay

---
 src/exoplanet/orbits/keplerian.py | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..4af5eb6 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -428,15 +428,17 @@ class KeplerianOrbit:
         """
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
 
-        # Compute the orbital radius and the component of the velocity
-        # in the z direction
+        # Compute the orbital radius, the ratio of the semimajor axis to that
+        # radius, and the component of the velocity in the -z direction
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
             r = a
+            a_over_r = 1.0
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
-            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            a_over_r = (1 + self.ecc * cosf) / (1.0 - self.ecc**2)
+            r = a / a_over_r
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
             vz = vamp * self.sin_incl * (self.ecc * self.cos_omega + cwf)
@@ -444,23 +446,23 @@ class KeplerianOrbit:
         # True position of the body
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
-        # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        # Component of the acceleration in the -z direction; this doesn't
+        # divide by the size of the orbit, which vanishes for the star when
+        # the planet is massless
+        az = angvel**2 * a_over_r**3 * z
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
-        delay = pt.switch(
-            pt.lt(pt.abs(az), 1.0e-10),
-            (z0 - z) / (c_light + vz),
-            (c_light / az)
-            * (
-                (1 + vz / c_light)
-                - pt.sqrt(
-                    (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
-                )
-            ),
+        # The root of the quadratic is written so that it doesn't cancel (or
+        # divide by zero) when the acceleration is small
+        delay = (
+            2
+            * (z0 - z)
+            / (
+                (c_light + vz)
+                + pt.sqrt((c_light + vz) ** 2 - 2 * az * (z0 - z))
+            )
         )
 
         if _pad:
-- 
2.43.0


From 63e8e5bd24a0026a988750f8ba515692b65d5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 03/26] fix: star acceleration is zero, not NaN, when the
 planet is massless

---
 src/exoplanet/orbits/keplerian.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 4af5eb6..649df8c 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -682,12 +682,12 @@ class KeplerianOrbit:
 
     def _get_acceleration(self, a, m, t):
         sinf, cosf = self._get_true_anomaly(t)
-        K = self.K0 * m
-        if self.ecc is None:
-            factor = -(K**2) / a
-        else:
-            factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
+        # This is equivalent to -K**2 / a, without dividing by the size of the
+        # orbit, which vanishes for the star when the planet is massless
+        factor = -(self.n**2) * a
+        if self.ecc is not None:
+            factor = factor * (
+                (self.ecc * cosf + 1) ** 2 / (1 - self.ecc**2) ** 2
             )
         return self._rotate_vector(factor * cosf, factor * sinf)
 
-- 
2.43.0


From 108f7b0ac443ac9faad2a7abeb4f9f0243bcdb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 04/26] fix: in_transit with a vector of exposure times

---
 src/exoplanet/orbits/keplerian.py | 4 ++++
 src/exoplanet/orbits/simple.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 649df8c..99a92a3 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -767,6 +767,10 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            # A vector of exposure times has one entry for each timestamp
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..82b29a3 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,10 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            # A vector of exposure times has one entry for each timestamp
+            texp = as_tensor_variable(texp)
+            if texp.ndim:
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 21d63bf494ea87ecbabd81c4f0982e9023308f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 05/26] fix: respect units of the duration, period, and r_star
 for circular orbits with a duration

---
 src/exoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 99a92a3..c805b55 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -124,6 +124,10 @@ class KeplerianOrbit:
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            # The units need to be resolved before these are combined
+            duration = to_unit(duration, u.day)
+            period = to_unit(period, u.day)
+            r_star = to_unit(r_star, u.R_sun)
             aor, daordtau = get_aor_from_transit_duration(
                 duration, period, b, ror=ror
             )
-- 
2.43.0


From 219b8c855b50b4edf6ca59808e40230a21dfb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 06/26] fix: light travel delay for TTV orbits

---
 src/exoplanet/orbits/ttv.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..25cbf70 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -184,4 +184,14 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        # In this case the last axis of "t" already runs over the planets
+        return pt.stack(
+            [
+                t[..., i]
+                - self._bin_values[i][
+                    pt.extra_ops.searchsorted(self._bin_edges[i], t[..., i])
+                ]
+                for i in range(len(self.ttvs))
+            ],
+            axis=-1,
+        )
-- 
2.43.0


From 2345fef81cd4118c07f84799a2a50ce46e22efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 07/26] fix: place unobserved transits using the period of the
 transit times

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 25cbf70..ce7a7d7 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From 87f5d278261bffca2e73e6a37902d36c761fc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 08/26] fix: include an expected transit that falls exactly on
 max_time

---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index ce7a7d7..837cde0 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From 0001552d4043c994856a867245f2073bf99f22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 09/26] fix: the first grid point is inside the bounds of the
 interpolation grid

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b72eca0 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (x > grid[-1])
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From 89faa6612c35fea4eb984f8846af81f06674d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 10/26] fix: interpolation of values with trailing output
 dimensions

---
 src/exoplanet/interp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b72eca0..536ed3c 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -44,15 +44,19 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
 
+    # The values can have trailing dimensions, one entry for each output
+    nout = values.ndim - ndim
     result = pt.zeros(tuple(coords.shape[:-1]) + tuple(values.shape[ndim:]))
     for edge_indices in itertools.product(*((i, i + 1) for i in indices)):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(weight, nout)
 
     if fill_value is not None:
-        result = pt.switch(out_of_bounds, fill_value, result)
+        result = pt.switch(
+            pt.shape_padright(out_of_bounds, nout), fill_value, result
+        )
 
     return result
 
-- 
2.43.0


From f853ac6cff68db43df8c4740bc7248017693e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 11/26] fix: honour the initial value of the second coordinate
 of unit_disk

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From 717ff048beba44644c7c972d78ce35fd7a8a0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 12/26] fix: index of the peaks returned by find_peaks

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..1be82b2 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From b379aea616cb66c562b03ce2ec3435ef5d82ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 13/26] fix: typo that discarded the minimum_period given to
 bls_estimator

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 1be82b2..9cd6f43 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From e1d2b1a724bc918d45fb0447c2d2efaf838ebeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 14/26] fix: semi-amplitudes of radial velocities with units
 and no uncertainties

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 9cd6f43..0d7ba2d 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From 5ca6a058a24b32ed71b92fe90370536e10f1c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:38 +0000
Subject: [PATCH 15/26] fix: do not silently ignore light_delay for the planet
 of a simple orbit

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 82b29a3..33be73e 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -40,7 +40,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From 84fb391970101518bb50a5bf72d6166f66e9a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 16/26] fix: simple orbits for planets given as lists

---
 src/exoplanet/orbits/simple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 33be73e..4f3931a 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -1,7 +1,5 @@
 __all__ = ["SimpleTransitOrbit"]
 
-import numpy as np
-
 from exoplanet.compat import tensor as pt
 from exoplanet.utils import as_tensor_variable
 
@@ -29,8 +27,9 @@ class SimpleTransitOrbit:
         self.r_star = as_tensor_variable(r_star)
 
         self._b_norm = self.b * self.r_star
-        x2 = r_star**2 * ((1 + ror) ** 2 - b**2)
-        self.speed = 2 * np.sqrt(x2) / duration
+        ror = as_tensor_variable(ror)
+        x2 = self.r_star**2 * ((1 + ror) ** 2 - self.b**2)
+        self.speed = 2 * pt.sqrt(x2) / self.duration
 
         self._half_period = 0.5 * self.period
         self._ref_time = self.t0 - self._half_period
-- 
2.43.0


From a85ec9d6d1615b1114e919f654f7fa7437fa920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 17/26] fix: secondary eclipses of more than one body

---
 src/exoplanet/light_curves/secondary_eclipse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/secondary_eclipse.py b/src/exoplanet/light_curves/secondary_eclipse.py
index b3ca3e5..897d395 100644
--- a/src/exoplanet/light_curves/secondary_eclipse.py
+++ b/src/exoplanet/light_curves/secondary_eclipse.py
@@ -1,5 +1,6 @@
 __all__ = ["SecondaryEclipseLightCurve"]
 
+from exoplanet.compat import tensor as pt
 from exoplanet.light_curves.limb_dark import LimbDarkLightCurve
 from exoplanet.utils import as_tensor_variable
 
@@ -55,7 +56,7 @@ class SecondaryEclipseLightCurve:
         )
         lc2 = self.secondary.get_light_curve(
             orbit=orbit2,
-            r=orbit.r_star,
+            r=orbit.r_star + pt.zeros_like(r),
             t=t,
             texp=texp,
             oversample=oversample,
-- 
2.43.0


From 099230753100991125e9accd07a2e6426a736963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 18/26] fix: Jacobians of a_star and a_planet with respect to
 the duration for massive planets

---
 src/exoplanet/orbits/keplerian.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c805b55..3ccc52c 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -155,12 +155,11 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
-            self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
-            )
-            self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
-            )
+            # The total mass is implied by a and the period, m_total ~ a**3,
+            # so a_star = a * m_planet / m_total ~ a**-2
+            dastardtau = -2 * dadtau * self.m_planet / self.m_total
+            self.jacobians["duration"]["a_star"] = dastardtau
+            self.jacobians["duration"]["a_planet"] = dastardtau - dadtau
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
             # -> drho / d(a/R) = 9 * pi * (a/R)**2 / (G * P**2)
-- 
2.43.0


From 1b7511825d6a80dce6f5d7e9f64108448fd8214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 19/26] fix: reject a semimajor axis given together with the
 duration of a circular orbit

---
 src/exoplanet/orbits/keplerian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 3ccc52c..05818e2 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -118,6 +118,11 @@ class KeplerianOrbit:
                     "'b' must be provided for a circular orbit with a "
                     "'duration'"
                 )
+            if a is not None:
+                raise ValueError(
+                    "'a' is implied by the 'duration' of a circular orbit, "
+                    "so it can't also be given"
+                )
             if ror is None:
                 warnings.warn(
                     "When using the 'duration' parameter in KeplerianOrbit, "
-- 
2.43.0


From f96209849b3d06ed25ac4a634489d8d5f3aa3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:58 +0000
Subject: [PATCH 20/26] fix: interpolated light curves of a single planet given
 by vectors with one entry

---
 src/exoplanet/light_curves/interpolated.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..e14c8ea 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -86,11 +86,14 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0
-            mx = orbit.t0 + orbit.period
+            # The parameters of a single planet can be vectors with one entry
+            t0 = pt.squeeze(orbit.t0)
+            period = pt.squeeze(orbit.period)
+            mn = t0
+            mx = t0 + period
             return interp(
                 0,
-                pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
+                pt.mod(t - t0, period) + t0,
                 mn,
                 mx,
                 (mx - mn) / (self.num_phase + 1),
-- 
2.43.0


From 4f07b90b52e55bd3197df878d61057abd0b5416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 21/26] fix: BibTeX keys of the rebound citations

---
 src/exoplanet/citations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index df8fea7..3190fc5 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -348,7 +348,7 @@ publisher={PeerJ Inc.}
     "rebound": (
         ("exoplanet:rebound",),
         r"""
-@ARTICLE{rebound,
+@ARTICLE{exoplanet:rebound,
        author = {{Rein}, H. and {Liu}, S. -F.},
         title = "{REBOUND: an open-source multi-purpose N-body code for
                  collisional dynamics}",
@@ -370,7 +370,7 @@ archivePrefix = {arXiv},
     "reboundias15": (
         ("exoplanet:reboundias15",),
         r"""
-@ARTICLE{reboundias15,
+@ARTICLE{exoplanet:reboundias15,
        author = {{Rein}, Hanno and {Spiegel}, David S.},
         title = "{IAS15: a fast, adaptive, high-order integrator for
                   gravitational dynamics, accurate to machine precision over a
@@ -414,7 +414,7 @@ author = {{Van Eylen}, Vincent and {Albrecht}, Simon and {Huang}, Xu and
     "reboundx": (
         ("exoplanet:reboundx",),
         r"""
-@article{tamayo2020reboundx,
+@article{exoplanet:reboundx,
    title  = {REBOUNDx: a library for adding conservative and dissipative forces
              to otherwise symplectic N-body integrations},
   author  = {Tamayo, Daniel and Rein, Hanno and Shi, Pengshuai and Hernandez,
-- 
2.43.0


From 3ab532d2d3892215bcddecc74cb20f96471970bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 22/26] fix: default start value of limb darkening parameters
 with a shape

---
 src/exoplanet/distributions/distributions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..0625200 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,14 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape_arg = kwargs.get("shape", ())
+    u = kwargs.pop(
+        "initval",
+        kwargs.pop(
+            "testval",
+            [np.full(shape_arg, np.sqrt(0.5)), np.zeros(shape_arg)],
+        ),
+    )
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From 59a6ffdb91d8af8f07176414c50c2dd74ccee4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 23/26] fix: default start value of bounded eccentricities with
 a shape

---
 src/exoplanet/distributions/eccentricity.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..457f3dc 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -86,7 +86,13 @@ def kipping13(
             upper = 1.0 if upper is None else upper
             if ecc is None:
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval",
+                    kwargs.pop(
+                        "testval",
+                        np.full(
+                            kwargs.get("shape", ()), 0.5 * (lower + upper)
+                        ),
+                    ),
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From 01107cba6d2c0e5a6513a922cc4267553f5cac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 24/26] fix: reference phase of eccentric orbits given by
 sin_omega = -1 and cos_omega = 0

---
 src/exoplanet/orbits/keplerian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 05818e2..9f6bb0a 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -210,10 +210,11 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            # Unlike the half-angle formula, this isn't singular when
+            # sin_omega is -1
+            E0 = pt.arctan2(
+                pt.sqrt(1 - self.ecc**2) * self.cos_omega,
+                self.sin_omega + self.ecc,
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-- 
2.43.0


From a5cc3c84b4e5fc3ac4dddf384984d0ef927a2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 25/26] fix: exposures that reach the previous or next transit
 of an eccentric orbit are in transit

---
 src/exoplanet/orbits/keplerian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 9f6bb0a..860a174 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -783,7 +783,11 @@ class KeplerianOrbit:
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
-        mask = pt.any(pt.and_(dt >= t_start, dt <= t_end), axis=-1)
+        # A long exposure can also reach the previous or the next transit
+        mask = (dt >= t_start) & (dt <= t_end)
+        mask |= dt <= t_end - self.period
+        mask |= dt >= t_start + self.period
+        mask = pt.any(mask, axis=-1)
 
         result = ifelse(
             pt.all(pt.eq(flag, 0)),
-- 
2.43.0


From 0840082c149a12f786d90947acde5b9ab65236e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 26/26] fix: light travel delay of secondary eclipses

---
 src/exoplanet/orbits/keplerian.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 860a174..d8ac088 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -71,6 +71,7 @@ class KeplerianOrbit:
     """
 
     __citations__ = ("astropy",)
+    _flipped = False
 
     def __init__(
         self,
@@ -464,7 +465,10 @@ class KeplerianOrbit:
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
         # The root of the quadratic is written so that it doesn't cancel (or
-        # divide by zero) when the acceleration is small
+        # divide by zero) when the acceleration is small. In a flipped orbit, it
+        # is the body at the other end of the position vector that is delayed
+        if self._flipped:
+            z, vz, az = -z, -vz, -az
         delay = (
             2
             * (z0 - z)
@@ -822,6 +826,7 @@ class KeplerianOrbit:
                 r_star=r_planet,
                 model=model,
             )
+        orbit._flipped = not self._flipped
         return orbit
 
 
-- 
2.43.0

