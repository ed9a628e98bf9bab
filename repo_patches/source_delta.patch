From b398183dc524e64b7403484c80c3eb0e31aeeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 01/11] fix: no snowcover instead of a negative depth when all
 snow melts

When a step melted more than the pack held, z_s went negative and was
reported as a negative snow depth over a zero-layer (bare) ground.
---
 pysnobal/point/snow_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index 0457169..6d0f423 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -268,8 +268,9 @@ class SnowState():
 
         """
 
-        if self.m_s <= self.small_threshold:
-            # less than minimum layer mass, so treat as no snowcover
+        if self.m_s <= self.small_threshold or self.z_s <= 0:
+            # less than minimum layer mass or no depth left (e.g. all of
+            # the snow melted), so treat as no snowcover
             # can change to the set zeros
             z_s_0 = z_s_l = 0
 
-- 
2.43.0


From 1503017f03cd927cbde022f1d725cba0bfbd8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 02/11] fix: count the liquid water of a vanishing snowcover
 only once

m_s includes the liquid water held in the snowcover, so adding m_s to
h2o_total made the runoff larger than the mass that left the ground.
---
 pysnobal/point/snobal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..977bed3 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -838,9 +838,10 @@ class Snobal(object):
             self.snow_state.rho = 0
 
             # if mass > 0, then it must be velow threshold.
-            # So turn this little bit of mass into water
+            # So turn this little bit of mass into water. The mass already
+            # includes any liquid water in the snowcover
             if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total += self.snow_state.m_s
+                self.snow_state.h2o_total = self.snow_state.m_s
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From b9f5509166dbc238d3b270da2470e096d55eca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 03/11] fix: scale the ageing of very heavy snow with the time
 step

---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 977bed3..9749a40 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -777,7 +777,7 @@ class Snobal(object):
             rate = 1.0
         else:
             rate = R1 * math.cos(np.pi * self.snow_state.m_s / SWE_MAX) + R2
-            rate = rate / (self.time_step / 3600.0)
+        rate = rate / (self.time_step / 3600.0)
 
         # Proportional Destructive Temperature Metamorphism (d_rho_m)
         if self.snow_state.rho < 100:
-- 
2.43.0


From faf075c643a92fedc7a10a16b7c1dcfe5298f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 04/11] fix: neutral stability no longer fails on an unset
 iteration count

---
 pysnobal/point/libsnobal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..abc833c 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -266,6 +266,7 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
         factor = VON_KARMAN * ustar * dens
         e = q_diff * factor * AV / ltsv
         h = t_diff * factor * CP_AIR * AH / ltsh
+        it = 0
 
     # if not neutral stability, iterate on Obukhov stability
     # length to find solution
-- 
2.43.0


From 1aaee44ec79c54a3efaeec13021a9d192d79ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 05/11] fix: no turbulent transfer in calm air instead of a
 division by zero

---
 pysnobal/point/libsnobal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index abc833c..a9d6476 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,8 +257,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
-    # if neutral stability ignore starting values and calculate
-    if air_temp == surface_temp:
+    # if neutral stability or calm ignore starting values and calculate
+    if air_temp == surface_temp or wind_speed == 0:
 
         # starting value, assume neutral stability, so psi-functions
         # are all zero
@@ -274,13 +274,13 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
         # it = 0
         lo = 1e500
 
-        # initialize ustar and factor
-        if init_ustar is None:
+        # initialize ustar and factor, also after a calm time step
+        if not init_ustar:
             ustar = VON_KARMAN * wind_speed / ltsm
         else:
             ustar = init_ustar
 
-        if init_factor is None:
+        if not init_factor:
             factor = VON_KARMAN * ustar * dens
         else:
             factor = init_factor
-- 
2.43.0


From e678ef847d0f8aa71f7bce07ed245bf5d47ae8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 06/11] fix: snow that cannot hold liquid water no longer
 divides by zero

---
 pysnobal/point/snobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 9749a40..5c6720e 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -341,8 +341,9 @@ class Snobal(object):
         else:
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
+            # snow that cannot hold any water is never saturated
             self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+                self.snow_state.h2o_max if self.snow_state.h2o_max > 0 else 0.0
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From f1ed47ad21bc5eb279a3d0770f4f268344b0ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 07/11] fix: honour measurement heights relative to the snow
 surface

---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 5c6720e..bcc8c5f 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From b6dde62c84b694cc57854ea41b5bbf215b4f568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 08/11] fix: initial snow temperatures are configured in
 Celsius

---
 pysnobal/pysnobal.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..6d525e6 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -215,6 +215,17 @@ class PySnobal():
     def parse_elevation(self):
         return self.config['topo']['elevation']
 
+    def parse_initial_conditions(self):
+        """
+        Initial snow properties with the temperatures in Kelvin. The lower
+        layer starts with the average temperature of the snowcover.
+        """
+        initial = dict(self.config['initial_snow_properties'])
+        initial['t_s_0'] += FREEZE
+        initial['t_s'] += FREEZE
+        initial['t_s_l'] = initial['t_s']
+        return initial
+
     def read_input_data(self):
         """
         Read in the input data from the csv file and prepare
@@ -289,7 +300,7 @@ class PySnobal():
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            self.parse_initial_conditions(),
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From f2dc95216ec25be692d181beaec34ce71a6fe664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 09/11] fix: sort the input before taking its time interval

---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 6d525e6..6e1c2af 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -243,8 +243,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 915bbe83c9b3c1a0b0bed98f2368b00540074661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 10/11] fix: count precipitation on a vanishing remnant of snow
 only once

---
 pysnobal/point/snobal.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index bcc8c5f..1ecb8d2 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -606,11 +606,6 @@ class Snobal(object):
 
         if self.input1.precip_now:
             if self.snowcover:
-                # Adjust snowcover's depth and mass by snowfall's
-                # depth and the total precipitation mass.
-                self.adj_snow(
-                    self.input1.z_snow, self.input1.m_pp)
-
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
@@ -620,6 +615,19 @@ class Snobal(object):
                                                 self.input1.rho_snow,
                                                 h2o_vol_snow)
 
+                # Add rainfall and water in the snowcover to the total liquid
+                # water, before the adjustment, which turns all of the mass
+                # into liquid water if too little is left for a layer
+                self.snow_state.h2o_total += self.snow_state.h2o + \
+                    self.input1.m_rain
+
+                # Adjust snowcover's depth and mass by snowfall's
+                # depth and the total precipitation mass.
+                self.adj_snow(
+                    self.input1.z_snow, self.input1.m_pp)
+
+                return
+
             elif self.input1.m_snow > 0:
 
                 # set the values from the initial snow properties
-- 
2.43.0


From 3e863b3bdb96678d84c3a790498f23de5060336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 11/11] fix: stamp the output from the first record instead of
 the start date

---
 pysnobal/pysnobal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 6e1c2af..f01321a 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -297,6 +297,9 @@ class PySnobal():
         input_data1 = InputData(input_data[self.input_data.index[0]])
         del input_data[self.input_data.index[0]]
 
+        # the simulation starts with the first record of the period
+        self.params['start_date'] = self.input_data.index[0]
+
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-- 
2.43.0

