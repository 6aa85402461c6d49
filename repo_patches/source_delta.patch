From 5f79339903acf779fd1cbbf453e3325319f1b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/25] fix: use VH slant angles for dual-polarized "VH" panel
 arrays

The slant was selected on `polarization` ("single"/"dual") instead of
`polarization_type`, so "VH" silently produced the +-45 degree "cross" array.
---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From fc1354649e91f17a990a1c64c0eab2542524db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 02/25] fix: correct ray offset angle of ray 16 (3GPP TR 38.901
 Table 7.5-3)

The offsets come in +- pairs; -0.1481 has to be -1.1481.
---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From d4018b1f3361ca4b53ca1d50c4f2d1757f4c8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 03/25] fix: make UTs with a negative x coordinate face the
 satellite

atan(y/x) loses the quadrant, so those UTs were oriented away from the BS.
---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..d40971b 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From a89f2b17fb7850f8ce27315c7298d6139916aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 04/25] fix: compute the LoS zenith angle of arrival as pi -
 ZoD

The azimuth of arrival is already flipped by pi. ZoD - pi leaves [0,180]
degrees, and together with the flipped azimuth the arrival direction was
not the reverse of the departure direction.
---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..89ea3be 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -824,7 +824,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From 938c5bae443b165757d7c01864fa2477cc535c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/25] fix: compute the slant range for each batch example and
 BS

The height of the first batch example was used for all of them, and more
than one BS raised an error in tf.fill.
---
 OpenNTN/system_level_scenario.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 89ea3be..5a94752 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -807,17 +807,12 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        # Satellite height, [batch size, num_bs, 1]
+        height_val = tf.expand_dims(self._bs_loc[:,:,2], axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
-        #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        # All UTs see a BS under the same elevation angle
+        distance_3d = tf.tile(distance_3d, [1, 1, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From b8b7ddad5f5430b8889e31e4eedbad5663b2a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 06/25] fix: keep previously set environment parameters in
 set_topology

Omitting an environment parameter reset it to its default instead of reusing
the previously given value, and setting only environment parameters left the
gas and scintillation losses of the old environment in place.
---
 OpenNTN/system_level_scenario.py | 47 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 5a94752..29200f1 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,17 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Environment, set to standard values if not further specified
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -569,51 +580,45 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
+        # Boolean used to keep track of whether or not the pathloss components
+        # depending on the environment need to be re-computed.
+        env_updated = False
+
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            env_updated = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            env_updated = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            env_updated = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            env_updated = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            env_updated = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            env_updated = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            env_updated = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            env_updated = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            env_updated = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -661,6 +666,10 @@ class SystemLevelScenario(Object):
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
             #self._compute_pathloss_additional()
+        elif env_updated:
+            # The topology is unchanged, but these depend on the environment
+            self._compute_pathloss_gas()
+            self._compute_pathloss_scintillation()
         return need_for_update
 
     def spatial_correlation_matrix(self, correlation_distance):
-- 
2.43.0


From c1d9fc7a99f6762d9353614bd3dc375c31f126b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 07/25] fix: leave shadow fading out of the pathloss when it is
 disabled

enable_shadow_fading=False still added a random shadow fading term to the
basic pathloss.
---
 OpenNTN/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d40971b..d91109f 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1777,6 +1777,11 @@ def compute_pathloss_basic(self):
         SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
         SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
 
+        # No random shadow fading in the pathloss if it is disabled
+        if not self.shadow_fading_enabled:
+            SF_los = tf.zeros_like(SF_los)
+            SF_nlos = tf.zeros_like(SF_nlos)
+
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
         pl_b = tf.where(self.los, pl_los, pl_nlos)
-- 
2.43.0


From 34124c373c9ee07a8e88d0b56f8a01d641f36ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 08/25] fix: apply satellite effects for each batch example and
 BS

Satellite Doppler, Faraday rotation and the zero departure spread used the
height of the first batch example (and BS) for all links, and more than one BS
raised an error.
---
 OpenNTN/channel_coefficients.py | 87 +++++++++++++++++++++------------
 OpenNTN/rays.py                 | 10 ++--
 OpenNTN/system_level_channel.py |  2 +-
 3 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..28be6f9 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -61,6 +61,12 @@ class Topology(Object):
         Orientations of the receivers, which are either BSs or UTs depending on
         the link direction [radian].
 
+    bs_height : [number of BSs] or [batch size, number of BSs], tf.float
+        Height of the BSs [m]
+
+    elevation_angle : float
+        Elevation angle [deg]
+
     doppler_enabled : bool
         Indicates if Doppler shift induced phase rotation should be simulated.
     """
@@ -100,6 +106,8 @@ class Topology(Object):
         max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        if bs_height.shape.rank == 2:
+            random_direction_per_batch = tf.expand_dims(random_direction_per_batch, axis=1)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -224,6 +232,41 @@ class ChannelCoefficientsGenerator(Object):
     # Utility functions
     ###########################################
 
+    def _broadcast_bs(self, x, topology, num_dims):
+        r"""
+        Make a per-BS quantity broadcastable with
+        [batch size, num TXs, num RXs] followed by ``num_dims`` dimensions
+
+        Input
+        -------
+        x : [batch size or 1, number of BSs]
+            Quantity defined for each BS
+
+        topology : Topology
+            Topology of the network
+
+        num_dims : int
+            Number of dimensions to append
+
+        Output
+        --------
+        : [batch size or 1, num TXs or 1, num RXs or 1] + ``num_dims``*[1]
+            Reshaped ``x``
+        """
+        # The BSs are at the end of the channel that is not moving
+        x = tf.expand_dims(x, axis=2 if topology.moving_end == 'rx' else 1)
+        return tf.reshape(x, tf.concat([tf.shape(x), [1]*num_dims], axis=0))
+
+    def _is_satellite(self, topology, num_dims):
+        r"""
+        Indicate for each BS if it is a satellite, i.e., if its height is at
+        least 600km. Reshaped as by ``_broadcast_bs()``.
+        """
+        bs_height = topology.bs_height
+        bs_height = tf.reshape(bs_height, [-1, tf.shape(bs_height)[-1]])
+        return self._broadcast_bs(tf.greater_equal(bs_height, 600000.0),
+                                  topology, num_dims)
+
     def _unit_sphere_vector(self, theta, phi):
         r"""
         Generate vector on unit sphere (7.1-6)
@@ -605,28 +648,15 @@ class ChannelCoefficientsGenerator(Object):
         # [batch size, num_tx, num rx, num clusters, num rays, num time steps]
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
+        # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
+        # to simulate the random direction of the orbit in relation to the users.
+        sat_speed = tf.reshape(topology.sat_speed, [tf.shape(topology.los_aoa)[0], -1])
+        # The Doppler shift induced phase shift between each time step
+        rotation_per_time = self._broadcast_bs((2.0*PI/lambda_0)*sat_speed, topology, 3)
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
-            # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
-            # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
-            # The Doppler shift induced phase shift between each time step
-            max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
-
-            # Multiply the time with the shift per time to create the shift on each time symbol for each batch
-            # [batch size, num time steps]
-            rotation_for_time = tf.matmul(tf.expand_dims(max_rotation_per_time,axis=1), tf.expand_dims(t,axis=0))
-
-            # As the time shift is the same within each batch, we expand the calculations per batch in the desired shape
-            # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-
-            rotation_for_time = tf.broadcast_to(rotation_for_time, tf.shape(exponent))
-            # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
-            exponent = tf.math.add(exponent, rotation_for_time)
+        use_sat_doppler = tf.logical_and(self._is_satellite(topology, 3), topology.doppler_enabled)
+        # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
+        exponent += tf.where(use_sat_doppler, rotation_per_time*t, tf.constant(0., self.rdtype))
 
         h_doppler = tf.exp(tf.complex(tf.constant(0.,
                                     self.rdtype), exponent))
@@ -872,10 +902,9 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=tf.shape(rays.aoa))
+        h_phase = tf.where(self._is_satellite(topology, 4),
+                           tf.matmul(h_phase,faraday_phase_rotation), h_phase)
             
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
@@ -1020,11 +1049,9 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=tf.shape(aoa))
+        h_phase = tf.where(self._is_satellite(topology, 4),
+                           tf.matmul(h_phase,faraday_phase_rotation), h_phase)
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index aab9000..c368071 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -431,8 +431,9 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
+            azimuth_spread = tf.where(
+                self._scenario.h_bs[:,:,tf.newaxis,tf.newaxis] >= 160000,
+                tf.zeros_like(azimuth_spread), azimuth_spread)
             
         else:
             azimuth_angles_los = scenario.los_aoa
@@ -596,8 +597,9 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            zenith_spread = tf.where(
+                self._scenario.h_bs[:,:,tf.newaxis,tf.newaxis] >= 160000,
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..ec56d89 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario.h_bs,
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
-- 
2.43.0


From 08d3cbe17a46b45c177cc5e3ad8bfa22a4627a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 09/25] fix: account for the orbit radius in the satellite
 Doppler shift

The speed of the satellite towards a UT seen at elevation angle alpha is
v_sat*R_E/(R_E+h)*cos(alpha), as in compute_stallite_doppler(); the factor
R_E/(R_E+h) was missing.
---
 OpenNTN/channel_coefficients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 28be6f9..0fb5698 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -103,7 +103,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        # Speed of the satellite towards the UT, see 3GPP TR38.811 section 6.8.1
+        r_earth = 6371000.0
+        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * (r_earth/(r_earth + bs_height)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
         if bs_height.shape.rank == 2:
-- 
2.43.0


From bb66c3dd2570a3fd05007070299972bb354d64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 10/25] fix: support precision="double"

Several tensors were created in single precision regardless of the configured
precision, so every channel model call and topology generation with
precision="double" failed with a dtype mismatch.
---
 OpenNTN/antenna.py               |  4 +--
 OpenNTN/channel_coefficients.py  | 10 ++++----
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  2 +-
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 43 ++++++++++++++++----------------
 7 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..818b36f 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, self.rdtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, self.rdtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 0fb5698..7d43a17 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -105,9 +105,9 @@ class Topology(Object):
         sat_speed = compute_satellite_speed(bs_height)
         # Speed of the satellite towards the UT, see 3GPP TR38.811 section 6.8.1
         r_earth = 6371000.0
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * (r_earth/(r_earth + bs_height)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), bs_height.dtype)) * (r_earth/(r_earth + bs_height)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=bs_height.dtype)
         if bs_height.shape.rank == 2:
             random_direction_per_batch = tf.expand_dims(random_direction_per_batch, axis=1)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
@@ -1140,9 +1140,9 @@ class ChannelCoefficientsGenerator(Object):
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
         psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.cast(tf.math.cos(psi_in_rad), self.cdtype))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.cast(tf.math.sin(psi_in_rad), self.cdtype))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.cast(-tf.math.sin(psi_in_rad), self.cdtype))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..aaecd07 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..1ef1fa0 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 29200f1..781f178 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -812,7 +812,7 @@ class SystemLevelScenario(Object):
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
         #convert to radians for tf.math.sin later
-        elevation_angle = math.radians(elevation_angle)
+        elevation_angle = tf.cast(math.radians(elevation_angle), self.rdtype)
         #Radius of the Earth
         R_E = 6371000
  
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..0435dda 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d91109f..b3fcbb5 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1600,11 +1601,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=tf.cast(self._temperature, self.rdtype)
+        p=tf.cast(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=self._water_vapor_density#water vapor density
+        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1639,11 +1640,11 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1738,7 +1739,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1751,14 +1752,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1774,8 +1775,8 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
 
         # No random shadow fading in the pathloss if it is disabled
         if not self.shadow_fading_enabled:
-- 
2.43.0


From 7b387206d036eff935a3a7beeb7cb17bf04d0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 11/25] fix: close the square root of the turbulent path length
 where ITU-R P.618 does

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index b3fcbb5..13b7ccc 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1718,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4 + math.sin(math.radians(Elev))))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4) + math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
-- 
2.43.0


From f4011c5f5b2c44138c0315218132c104335b1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 12/25] fix: no tropospheric scintillation instead of NaN for
 very large antennas

---
 OpenNTN/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 13b7ccc..1010301 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1727,7 +1727,9 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            g_sqr = 3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6)
+            # A negative argument (very large antennas) means no scintillation fading, see ITU-R P.618
+            g = tf.math.sqrt(tf.math.maximum(g_sqr, 0.0))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From 2d1b541a9d81a34d0c62ce589db40a516af05fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:31 +0000
Subject: [PATCH 13/25] fix: keep Python scalars in the requested precision

---
 OpenNTN/channel_coefficients.py  |  3 ++-
 OpenNTN/system_level_scenario.py |  2 +-
 OpenNTN/utils.py                 | 14 ++++++++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 7d43a17..06def08 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -105,7 +105,8 @@ class Topology(Object):
         sat_speed = compute_satellite_speed(bs_height)
         # Speed of the satellite towards the UT, see 3GPP TR38.811 section 6.8.1
         r_earth = 6371000.0
-        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), bs_height.dtype)) * (r_earth/(r_earth + bs_height)) * sat_speed
+        elevation_angle_rad = tf.cast(tf.convert_to_tensor(elevation_angle * (PI/180.0), dtype_hint=bs_height.dtype), bs_height.dtype)
+        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle_rad) * (r_earth/(r_earth + bs_height)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=bs_height.dtype)
         if bs_height.shape.rank == 2:
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 781f178..adfa271 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -812,7 +812,7 @@ class SystemLevelScenario(Object):
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
         #convert to radians for tf.math.sin later
-        elevation_angle = tf.cast(math.radians(elevation_angle), self.rdtype)
+        elevation_angle = tf.constant(math.radians(elevation_angle), self.rdtype)
         #Radius of the Earth
         R_E = 6371000
  
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 1010301..37d6114 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -115,12 +115,16 @@ def time_frequency_vector(num_samples, sample_duration, precision=None):
         n_min = tf.cast(-(num_samples-1) / 2, dtype=tf.int32)
         n_max = tf.cast((num_samples+1) / 2 - 1, dtype=tf.int32)
 
+    # Python scalars are directly converted to the requested precision
+    sample_duration = tf.cast(tf.convert_to_tensor(sample_duration,
+                                                   dtype_hint=rdtype), rdtype)
+
     # Time vector
     t = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
-        * tf.cast(sample_duration, rdtype)
+        * sample_duration
 
     # Frequency vector
-    df = tf.cast(1.0/sample_duration, rdtype)/tf.cast(num_samples, rdtype)
+    df = 1.0/sample_duration/tf.cast(num_samples, rdtype)
     f = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
         * tf.cast(df, rdtype)
 
@@ -582,8 +586,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    bs_height = tf.cast(bs_height, rdtype)
-    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    # Python scalars are directly converted to the requested precision
+    bs_height = tf.cast(tf.convert_to_tensor(bs_height, dtype_hint=rdtype), rdtype)
+    elevation_angle = tf.cast(tf.convert_to_tensor(elevation_angle, dtype_hint=rdtype), rdtype)
+    actual_bs_ut_distance = bs_height / tf.math.sin(deg_2_rad(elevation_angle))
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
     x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
-- 
2.43.0


From 9dceba88c9e7c017151a6ed53c9fa7dc4ba33bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 14/25] fix: keep Python scalars of topologies and gas loss in
 the requested precision

---
 OpenNTN/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 37d6114..0b7a240 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -986,8 +986,10 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    # Python scalars are directly converted to the requested precision
+    elevation_angle = tf.cast(tf.convert_to_tensor(elevation_angle, dtype_hint=rdtype), rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + deg_2_rad(elevation_angle + 180.0)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + deg_2_rad(elevation_angle + 90.0)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1166,9 +1168,11 @@ def gen_single_sector_topology( batch_size,
         rdtype = dtypes[precision]["tf"]["rdtype"]
 
     # Setting BS to (0,0,bs_height)
+    # Python scalars are directly converted to the requested precision
+    bs_height = tf.cast(tf.convert_to_tensor(bs_height, dtype_hint=rdtype), rdtype)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
+                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1607,11 +1611,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=tf.cast(self._temperature, self.rdtype)
-        p=tf.cast(self._atmospheric_pressure, self.rdtype)
+        T=tf.cast(tf.convert_to_tensor(self._temperature, dtype_hint=self.rdtype), self.rdtype)
+        p=tf.cast(tf.convert_to_tensor(self._atmospheric_pressure, dtype_hint=self.rdtype), self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
+        pw=tf.cast(tf.convert_to_tensor(self._water_vapor_density, dtype_hint=self.rdtype), self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
-- 
2.43.0


From 4e6c9c5dd4fed778648f0591431356a06cc30925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 15/25] fix: allow compiled topology updates in double
 precision

---
 OpenNTN/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 0b7a240..042fa49 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1660,14 +1660,14 @@ def compute_pathloss_gas(self):
         # Calculation of the dry air specific attenuation 
         # For more detail see ITU-R P.676-5 (22a)
         if tf.less_equal(f,60.0):
-            N = 0.0
+            N = tf.cast(0.0, f.dtype)
         else:
-            N = -15.0
+            N = tf.cast(-15.0, f.dtype)
         
         if tf.less_equal(f, 54.0):
             Yo=(((7.2*(rt**2.8))/((f**2)+(0.34*(rp**2)*(rt**1.6))))+((0.62*ee3)/(((54-f)**(1.16*ee1))+(0.83*ee2))))*((f**2)*(rp**2)*(10**(-3)))
 
-        elif tf.less(54.0,f) and tf.less_equal(f, 66.0):
+        elif tf.greater(f, 54.0) and tf.less_equal(f, 66.0):
             Yo = tf.math.exp((
                             ((54.0**(-N)) * tf.math.log(g54) * (f - 57.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 1944.0) -
                             ((57.0**(-N)) * tf.math.log(g57) * (f - 54.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 486.0) +
@@ -1676,13 +1676,13 @@ def compute_pathloss_gas(self):
                             ((66.0**(-N)) * tf.math.log(g66) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 63.0) / 1944.0) 
                             )* f**N)
         
-        elif tf.less(66.0,f) and tf.less_equal(f, 120.0):
+        elif tf.greater(f, 66.0) and tf.less_equal(f, 120.0):
             Yo = 3.02 * 10.0**(-4) * rt**(3.5) + ((0.283*rt**3.8)/((f-118.75)**2.0 +2.91 * rp**2.0 * rt**1.6)) + ((0.502 * ee6 * (1 - 0.0163 * ee7 * (f - 66.0)))/((f - 66.0) ** (1.4346 * ee4 + 1.15 * ee5)))
         # TODO In eager execution this code requires Yo to always be set. The best solution would be to throw an exception if illeagal frequencies are encoutered. However, this
         # currently breaks eager execution and thus uses this value instead. A future version will properly cath this case and throw an exceotion.For now this is not 
         # necessary, as the frequency range is not supported by the standard.
         else:
-            Yo = 0.0
+            Yo = tf.zeros_like(f)
 
         # Calculation of the equivalent height
         t1=(4.64/(1+(0.066*(rp**(-2.3)))))*tf.math.exp(-(((f-59.7)/(2.87+(12.4*tf.math.exp((-7.9)*rp))))**2.0))
-- 
2.43.0


From 0e520e3120f90e79066a5ef729cf60038f63e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 16/25] fix: TDL transmit correlation uses the adjoint of the
 Cholesky factor

With R = L L^H, h L^H has the transmit correlation R. h L has not, and
gives the transmit antennas different powers.
---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index f2e5cc9..ff70372 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,7 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt, adjoint_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0


From 9fe83dfb8e993e96dc2a4dbdb51c8dbda52ecf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 17/25] fix: TDL models in double precision

tf.math.sqrt of a Python float is a single precision tensor, which
cannot be combined with the double precision carrier frequency.
---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index ff70372..1786a3a 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -578,7 +578,7 @@ class TDL(ChannelModel):
         elavation_angle = self.elevation_angle
 
         #Equation (8.41) from Curtis, H. D. (2005). Orbital Mechanics for Engineering Students. Butterworth-Heinemann. ISBN: 0 7506 6169 0.
-        v_sat = tf.math.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
+        v_sat = np.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
 
         additional_doppler_shift_811 = v_sat/v_light * ((r_earth/(r_earth+h_sat)) * np.cos(np.deg2rad(elavation_angle))) * self._carrier_frequency
         return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + additional_doppler_shift_811
-- 
2.43.0


From e09a4ee1a54aa8df1c0dec86f4d5803a2f10b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 18/25] fix: refuse TDL model E, which has no profile

TR 38.811 defines NTN-TDL-A to D; model E was accepted and then failed
with an UnboundLocalError.
---
 OpenNTN/tdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 1786a3a..b678568 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -153,7 +153,7 @@ class TDL(ChannelModel):
     -----------
 
     model : str
-        TDL model to use. Must be one of "A", "B", "C", "D", "E", "A30", "B100", or "C300".
+        TDL model to use. Must be one of "A", "B", "C", "D", "A30", "B100", or "C300".
 
     delay_spread : float
         RMS delay spread [s].
@@ -259,7 +259,7 @@ class TDL(ChannelModel):
         #self._real_dtype = real_dtype
 
         # Set the file from which to load the model
-        assert model in ('A', 'B', 'C', 'D', 'E', 'A30', 'B100', 'C300'),\
+        assert model in ('A', 'B', 'C', 'D', 'A30', 'B100', 'C300'),\
             "Invalid TDL model"
         if model == 'A':
             parameters_fname = "TDL-A.json"
-- 
2.43.0


From 7e606838cff0e14849e977ef537b201d75e11aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 19/25] fix: keep Python scalars of the one-ring model in the
 requested precision

---
 OpenNTN/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 042fa49..faf24e6 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1568,8 +1568,8 @@ def one_ring_corr_mat(phi_deg, num_ant, d_h=0.5, sigma_phi_deg=15,
         warnings.warn("sigma_phi_deg should be smaller than 15.")
 
     # Convert all inputs to radians
-    phi_deg = tf.cast(phi_deg, dtype=rdtype)
-    sigma_phi_deg = tf.cast(sigma_phi_deg, dtype=rdtype)
+    phi_deg = tf.cast(tf.convert_to_tensor(phi_deg, dtype_hint=rdtype), rdtype)
+    sigma_phi_deg = tf.cast(tf.convert_to_tensor(sigma_phi_deg, dtype_hint=rdtype), rdtype)
     phi = deg_2_rad(phi_deg)
     sigma_phi = deg_2_rad(sigma_phi_deg)
 
-- 
2.43.0


From b876a48842caffff26b1d615bc7a4da5987ae60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 20/25] fix: keep Sionna's channel module complete if
 integrating OpenNTN fails

---
 post_install.py        | 6 +++++-
 post_install_legacy.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/post_install.py b/post_install.py
index a33aa6d..5acc099 100644
--- a/post_install.py
+++ b/post_install.py
@@ -35,8 +35,12 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
+            # Written beside the file, which thus is complete at any time
+            new_file_path = channel_init_file_path + ".new"
+            with open(new_file_path, 'w') as file:
                 file.writelines(lines)
+            shutil.copymode(channel_init_file_path, new_file_path)
+            os.replace(new_file_path, channel_init_file_path)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 2e80ae7..1e08e5b 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -35,8 +35,12 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
+            # Written beside the file, which thus is complete at any time
+            new_file_path = channel_init_file_path + ".new"
+            with open(new_file_path, 'w') as file:
                 file.writelines(lines)
+            shutil.copymode(channel_init_file_path, new_file_path)
+            os.replace(new_file_path, channel_init_file_path)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
-- 
2.43.0


From 45b0df22f0fff6e85a8a5c77be607b5a2c6c9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 21/25] fix: integrate OpenNTN after an import without a line
 end

---
 post_install.py        | 2 ++
 post_install_legacy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/post_install.py b/post_install.py
index 5acc099..22ee254 100644
--- a/post_install.py
+++ b/post_install.py
@@ -34,6 +34,8 @@ def modify_vanilla_sionna():
             print(f"Already importing tr38811 in channel: {line_to_add}")
 
         if insert_index is not None:
+            if not lines[insert_index - 1].endswith("\n"):
+                lines[insert_index - 1] += "\n"
             lines.insert(insert_index, f"{line_to_add}\n")
             # Written beside the file, which thus is complete at any time
             new_file_path = channel_init_file_path + ".new"
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 1e08e5b..99c35c9 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -34,6 +34,8 @@ def modify_vanilla_sionna():
             print(f"Already importing tr38811 in channel: {line_to_add}")
 
         if insert_index is not None:
+            if not lines[insert_index - 1].endswith("\n"):
+                lines[insert_index - 1] += "\n"
             lines.insert(insert_index, f"{line_to_add}\n")
             # Written beside the file, which thus is complete at any time
             new_file_path = channel_init_file_path + ".new"
-- 
2.43.0


From d485c93eaf82e48aeb6f9fbfd9fc7e8e498aa1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 22/25] fix: renew the link to OpenNTN when it is installed
 again

---
 install.sh        | 2 +-
 install_legacy.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index 4939f30..396c2aa 100644
--- a/install.sh
+++ b/install.sh
@@ -16,7 +16,7 @@ python "$POST_INSTALL_NAME"
 # Create link to OpenNTN inside Sionna
 OpenNTN_DIR=$(pip show OpenNTN | grep Location | cut -d' ' -f2)/OpenNTN
 SIONNA_DIR=$(pip show sionna | grep Location | cut -d' ' -f2)/sionna
-ln -s $OpenNTN_DIR $SIONNA_DIR/phy/channel/tr38811
+ln -sfn $OpenNTN_DIR $SIONNA_DIR/phy/channel/tr38811
 
 # Remove temporary variables after installation
 rm "$POST_INSTALL_NAME"
diff --git a/install_legacy.sh b/install_legacy.sh
index 0d41a5f..898584a 100644
--- a/install_legacy.sh
+++ b/install_legacy.sh
@@ -16,7 +16,7 @@ python "$POST_INSTALL_NAME"
 # Create link to OpenNTN inside Sionna
 OpenNTN_DIR=$(pip show OpenNTN | grep Location | cut -d' ' -f2)/OpenNTN
 SIONNA_DIR=$(pip show sionna | grep Location | cut -d' ' -f2)/sionna
-ln -s $OpenNTN_DIR $SIONNA_DIR/channel/tr38811
+ln -sfn $OpenNTN_DIR $SIONNA_DIR/channel/tr38811
 
 # Remove temporary variables after installation
 rm "$POST_INSTALL_NAME"
-- 
2.43.0


From 23fc71ab39a21d525b82fb415f6baedd0925600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 23/25] fix: show_topology uses one unit for all nodes and axes

---
 OpenNTN/system_level_channel.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index ec56d89..839d978 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -340,16 +340,12 @@ class SystemLevelChannel(ChannelModel):
 
         ut_loc = self._scenario.ut_loc.numpy()[batch_index]
         bs_loc = self._scenario.bs_loc.numpy()[batch_index]
-        ut_scaled_unit = "[m]"
-        bs_scaled_unit = "[m]"
-        ut_condition = tf.reduce_any(tf.greater(ut_loc, 10000.0))
-        bs_condition = tf.reduce_any(tf.greater(bs_loc, 10000.0))
-        if ut_condition:
+        # UTs and BSs share the axes, and hence one unit
+        scaled_unit = "[m]"
+        if np.any(ut_loc > 10000.0) or np.any(bs_loc > 10000.0):
             ut_loc = ut_loc/1000.0
-            ut_scaled_unit = "[km]"
-        if bs_condition:
             bs_loc = bs_loc/1000.0
-            bs_scaled_unit = "[km]"
+            scaled_unit = "[km]"
 
         ut_orientations = self._scenario.ut_orientations.numpy()[batch_index]
         bs_orientations = self._scenario.bs_orientations.numpy()[batch_index]
@@ -387,9 +383,9 @@ class SystemLevelChannel(ChannelModel):
             ax.text(loc[0], loc[1], loc[2], f'{u}')
             draw_coordinate_system(ax, loc, ut_orientations[u], delta)
 
-        x_label = str('x ' + ut_scaled_unit)
-        y_label = str('y ' + ut_scaled_unit)
-        z_label = str('z ' + bs_scaled_unit)
+        x_label = str('x ' + scaled_unit)
+        y_label = str('y ' + scaled_unit)
+        z_label = str('z ' + scaled_unit)
         ax.set_xlabel(x_label)
         ax.set_ylabel(y_label)
         ax.set_zlabel(z_label)
-- 
2.43.0


From f11b88a205b365043172c207cdad34817c138214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 24/25] fix: showing an element pattern in double precision

---
 OpenNTN/antenna.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 818b36f..367e712 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -84,8 +84,10 @@ class AntennaElement(Object):
         """
         Shows the field pattern of an antenna element
         """
-        theta = tf.linspace(0.0, PI, 361)
-        phi = tf.linspace(-PI, PI, 361)
+        theta = tf.linspace(tf.constant(0.0, self.rdtype),
+                            tf.constant(PI, self.rdtype), 361)
+        phi = tf.linspace(tf.constant(-PI, self.rdtype),
+                          tf.constant(PI, self.rdtype), 361)
         a_v = 10*log10(self._radiation_pattern(theta, tf.zeros_like(theta) ))
         a_h = 10*log10(self._radiation_pattern(PI/2*tf.ones_like(phi) , phi))
 
@@ -102,14 +104,16 @@ class AntennaElement(Object):
         plt.title(r"Horizontal cut of the radiation pattern ($\theta = \pi/2$)")
         plt.legend([f"{self._pattern}"])
 
-        theta = tf.linspace(0.0, PI, 100)
-        phi = tf.linspace(-PI, PI, 100)
+        theta = tf.linspace(tf.constant(0.0, self.rdtype),
+                            tf.constant(PI, self.rdtype), 100)
+        phi = tf.linspace(tf.constant(-PI, self.rdtype),
+                          tf.constant(PI, self.rdtype), 100)
         phi_grid, theta_grid = tf.meshgrid(phi, theta)
         a = self._radiation_pattern(theta_grid, phi_grid)
         # As the aperture pattern scales differently, the amplitude is transformed into the log domain 
         if self._pattern == "aperture":
             a = 50+tf.math.log(a,10)
-            a = tf.where(a > 0, a, tf.cast(0.0, tf.float32))
+            a = tf.where(a > 0, a, tf.cast(0.0, self.rdtype))
             
         x = a * sin(theta_grid) * cos(phi_grid)
         y = a * sin(theta_grid) * sin(phi_grid)
-- 
2.43.0


From f103ddbcda5d76399e3990eece2a4fd89295b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 25/25] fix: markers of VH arrays follow the polarizations

---
 OpenNTN/antenna.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 367e712..25e145d 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -702,8 +702,8 @@ class PanelArray(Object):
                 marker_p1 = (2, 0, -45)
                 marker_p2 = (2, 0, 45)
             else:
-                marker_p1 = MarkerStyle("_").get_marker()
-                marker_p2 = MarkerStyle("|").get_marker()
+                marker_p1 = MarkerStyle("|").get_marker()
+                marker_p2 = MarkerStyle("_").get_marker()
 
         fig = plt.figure()
         pos_pol1 = self._ant_pos_pol1
-- 
2.43.0

