From fcd598a43821f97fd7b59c8b8269cad8f02e07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 01/13] fix: scale the Bougamont snow albedo decay with the
 time step

The decay per time step was divided by t_star * dt instead of multiplied by
dt / t_star, so hourly steps overshot the firn albedo (down to below the ice
albedo) and shorter steps decayed faster.
---
 cosipy/modules/albedo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/albedo.py b/cosipy/modules/albedo.py
index 2e6afd3..eb6e069 100644
--- a/cosipy/modules/albedo.py
+++ b/cosipy/modules/albedo.py
@@ -242,9 +242,9 @@ def method_Bougamont(GRID, surface_temperature: float, albedo_snow: float):
         temperature-dependant decay timescales."""
 
         # slightly faster than one-liner
-        t_star_days = float(t_star) * float(dt_days)
+        decay = float(dt_days) / float(t_star)
         delta_albedo = albedo_snow - albedo_firn
-        albedo_snow -= delta_albedo / t_star_days
+        albedo_snow -= delta_albedo * decay
 
         # Reset if snowfall in current timestep
         if hours_since_snowfall == 0:
-- 
2.43.0


From 09d12ab6c8816fd819859e9ee44bbfb1067a00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 02/13] fix: read the fresh snow state under the names restart
 files use

Restart files store NEWSNOWHEIGHT, NEWSNOWTIMESTAMP and OLDSNOWTIMESTAMP, but
load_snowpack only looked for the lower-case names and raised AttributeError.
---
 cosipy/cpkernel/init.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosipy/cpkernel/init.py b/cosipy/cpkernel/init.py
index 264b5ec..286f553 100644
--- a/cosipy/cpkernel/init.py
+++ b/cosipy/cpkernel/init.py
@@ -129,9 +129,15 @@ def load_snowpack(GRID_RESTART):
     layer_LWC = GRID_RESTART.LAYER_LWC.values[0:num_layers]
     layer_IF = GRID_RESTART.LAYER_IF.values[0:num_layers]
 
-    new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
-    new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
-    old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
+    # Restart files use upper-case names, the coupler passes lower-case ones
+    if hasattr(GRID_RESTART, "NEWSNOWHEIGHT"):
+        new_snow_height = np.float64(GRID_RESTART.NEWSNOWHEIGHT.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.NEWSNOWTIMESTAMP.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.OLDSNOWTIMESTAMP.values)
+    else:
+        new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
 
     GRID = create_grid_jitted(
         layer_heights,
-- 
2.43.0


From baf3b6feb961ab00057e85216347de82845a014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 03/13] fix: format the restart timestamp

get_datetime returns np.datetime64, which has no strftime, so every restart
failed with AttributeError.
---
 cosipy/cpkernel/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..df38b41 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -137,7 +137,11 @@ class IOClass:
             time_end = Config.time_end
             start_timestamp = self.get_datetime(time_start)
             end_timestamp = self.get_datetime(time_end)
-            timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
+            timestamp = (
+                np.datetime64(start_timestamp)
+                .astype(datetime)
+                .strftime("%Y-%m-%dT%H-%M")
+            )
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
             )
-- 
2.43.0


From 8f93102a17fa833445de5fcae46d33fe8cb5862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 04/13] fix: run with snowfall as the only precipitation input

RAIN stayed None and the comparison with the rain threshold raised TypeError.
---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..ca95395 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -182,7 +182,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     elif 'SNOWFALL' in DATA:
         SNOWF = DATA.SNOWFALL.values * mult_factor_RRR
         RRR = None
-        RAIN = None
+        RAIN = 0.0
     else:
         SNOWF = None
         RRR = DATA.RRR.values * mult_factor_RRR
-- 
2.43.0


From 75da23d93068aa2f096855dff58bef5c8fe72176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 05/13] fix: report all of the subsurface melt

The melt was multiplied with the layer height after the layer had been shrunk
by that melt, so less was reported than had been added as liquid water.
---
 cosipy/modules/penetratingRadiation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..9f9799f 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -94,6 +94,11 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
+            # Melt refers to the layer height before the layer shrinks
+            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
+                idxNode
+            )
+
             if dh >= 1.0:
                 list_of_layers_to_remove.append(idxNode)
             else:
@@ -111,10 +116,6 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                 GRID.set_node_liquid_water_content(
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
-
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From 767a8e0221316e5ee91c47b8f7bd70fddc3757b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 06/13] fix: convert the slope to radians in the Vionnet
 densification

SLOPE is in degrees; its cosine was taken as if in radians, so e.g. a slope of
2 degrees expanded the snow.
---
 cosipy/modules/densification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index 0189c0f..eab30a6 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -204,10 +204,10 @@ def method_Vionnet(GRID, SLOPE, dt):
 
             # Vertical stress
             if idxNode>0:
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[idxNode-1]*height[idxNode-1]
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[idxNode-1]*height[idxNode-1]
             elif idxNode==0:
                 # Take only half layer height of the first layer
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[0]*(height[0]/2.0)
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[0]*(height[0]/2.0)
 
             # Rate of change for the layer height
             dD = (-sigma/eta)*dt 
-- 
2.43.0


From ce919abf4844323ae0ef4950b423201a3d2cc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 07/13] fix: store latitudes as lat and longitudes as lon in
 WRF style inputs

The two coordinates were swapped.
---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..f93735a 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -214,8 +214,8 @@ def get_variable_metadata(name: str) -> dict:
 def set_dataset_coordinates(dataset, latitude, longitude):
 
     x, y = np.meshgrid(longitude, latitude)
-    dataset.coords["lat"] = (("south_north", "west_east"), x)
-    dataset.coords["lon"] = (("south_north", "west_east"), y)
+    dataset.coords["lat"] = (("south_north", "west_east"), y)
+    dataset.coords["lon"] = (("south_north", "west_east"), x)
 
     return dataset
 
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
-- 
2.43.0


From 7ffe19428595538a42bf2e489606bf9f0d77d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 08/13] fix: use one exponent in both directions of the
 pressure correction

Reducing to sea level and back to the station altitude did not give the
measured pressure (5.255 versus 5.22); the 2D branch uses 5.255 for both.
---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index f93735a..da24ce3 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From 46b4d49919b7f62ef67558758834d2ef83d9243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 09/13] fix: interpolate subsurface temperature at the lowest
 layer depth

A depth equal to the last cumulative depth selected the layer below the
column (IndexError).
---
 cosipy/modules/surfaceTemperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index f952c0f..01a63c2 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -184,7 +184,7 @@ def get_subsurface_temperature(GRID, cumulative_depth: np.ndarray, zlt: float):
     idx1_depth = np.abs(cumulative_depth - zlt).argmin()
     depth = cumulative_depth.flat[idx1_depth]
 
-    if depth > zlt:
+    if depth > zlt or idx1_depth == cumulative_depth.size - 1:
         idx2_depth = idx1_depth - 1
     else:
         idx2_depth = idx1_depth + 1
-- 
2.43.0


From edb1af22004ff2d6fca6608222af39ea37dbe9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 10/13] fix: minimise the residual's magnitude after a failed
 root search

With Newton or Secant the fallback minimised the signed residual, which
drives the surface temperature to the upper bound (melting) in very cold
conditions.
---
 cosipy/modules/surfaceTemperature.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index 01a63c2..9ac1a49 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -91,7 +91,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError,ValueError):
              # Workaround for non-convergence and unboundedness
-             res = minimize(eb_optim, initial_guess, method='SLSQP',
+             res = minimize(get_residual_magnitude, initial_guess, method='SLSQP',
                        bounds=((lower_bnd_ts, upper_bnd_ts),),tol=1e-2,
                        args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     elif sfc_temperature_method == 'Secant':
@@ -103,7 +103,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
-            res = minimize(eb_optim, initial_guess, method='SLSQP',
+            res = minimize(get_residual_magnitude, initial_guess, method='SLSQP',
                            bounds=((lower_bnd_ts, zero_temperature),), tol=1e-2,
                            args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     else:
@@ -555,6 +555,11 @@ def eb_optim(
 # fmt: on
 
 
+def get_residual_magnitude(*args) -> float:
+    """Magnitude of the residual, for minimisation after a failed root search."""
+    return np.abs(eb_optim(*args))
+
+
 @njit
 def method_EW_Sonntag(T: float) -> float:
     """Get the saturation vapor pressure.
-- 
2.43.0


From 3b0fc553731798248871f3668a944991368e838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:28 +0000
Subject: [PATCH 11/13] fix: compute the solar azimuth from the hour angle

---
 cosipy/modules/radCor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..85528b2 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -54,11 +54,13 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     # Zenith angle (radians)
     zeni = math.pi/2.0 - beta
     
-    # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
-    
-    if solartime < solarnoon:
-        azi = azi * -1.0
+    # Azimuth angle (radians): south == 0, east negative, west positive
+    hour_angle = 15.0 * FAC * (solartime - solarnoon)
+    azi = math.atan2(
+        math.cos(dec) * math.sin(hour_angle),
+        math.sin(lat * FAC) * math.cos(dec) * math.cos(hour_angle)
+        - math.cos(lat * FAC) * math.sin(dec),
+    )
 
     return beta, zeni, azi
 
-- 
2.43.0


From 802e07adedf078192ba9f32b825821ecfe3e525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:28 +0000
Subject: [PATCH 12/13] fix: pass the humidity inputs to metpy by name

---
 cosipy/modules/radCor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 85528b2..0cbccda 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -463,7 +463,11 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
     swidiff = np.full_like(elvgrid, np.nan)
 
     # Mixing ratio from RH and Pres
-    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin, pgrid * units.hPa)
+    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(
+        relative_humidity=rhgrid * units.percent,
+        temperature=tempgrid * units.kelvin,
+        pressure=pgrid * units.hPa,
+    )
     vp_interp = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing_interp))
 
     # Solar geometries
-- 
2.43.0


From 7eac6c54b7ed44198733cf17b981b07b9f3c52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:02 +0000
Subject: [PATCH 13/13] fix: ignore layer output variables the model does not
 have

The distributed configuration selects LW, which has no metadata and no
local result: writing the output with full_field ended in a KeyError.
---
 cosipy/cpkernel/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index df38b41..2757962 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -30,7 +30,13 @@ class IOClass:
             self.atm = [value for value in self.atm if value!=input_name]
 
         self.internal = self.get_output_variables(Config.output_internal)
-        self.full = self.get_output_variables(Config.output_full)
+        # Only layer variables with metadata can be written
+        full_metadata = self.get_full_field_metadata()
+        self.full = [
+            name
+            for name in self.get_output_variables(Config.output_full)
+            if f"LAYER_{name}" in full_metadata
+        ]
 
         # Initialize data
         self.DATA = DATA
-- 
2.43.0

