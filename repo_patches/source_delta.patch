From 05b9c145034fa80335b800d8d4032f9072845642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 01/29] fix: subtract the offset before scaling when converting
 fahrenheit to celsius

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a3c5363 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
-- 
2.43.0


From eba0ca5145eba0dba8e15b93768ddab26b7a4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 02/29] fix: use 273.15 as the offset between celsius and
 kelvin

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a3c5363..a1a54df 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -184,7 +184,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 866bbbe32b0968dd290fd73e0a4511a184ae8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 03/29] fix: parse the steepness text that is printed for
 average seas

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..1d651dd 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 38fabd445ffb7cd1edf0afd0cc2bfe143a22aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 04/29] fix: great-circle distance squares the sine of the half
 angles and uses signed latitudes

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..313acc6 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powi(2)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powi(2);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From b4f6f06afe53f4c9f85bc94f97f0205765667ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 05/29] fix: bounding boxes that cross the prime meridian or
 span the globe contain their points

---
 src/location.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 313acc6..18fc1d4 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,17 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        let west = absolute_longitude(bbox.0);
+        let east = absolute_longitude(bbox.2);
+        let lng = absolute_longitude(self.longitude);
+        let within_lng = if (bbox.2 - bbox.0).abs() >= 360.0 {
+            true
+        } else if west <= east {
+            west <= lng && lng <= east
+        } else {
+            // The box crosses the prime meridian
+            west <= lng || lng <= east
+        };
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 2bc8f8f9b4422a7e1b00c66d42a1fa851a6159c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 06/29] fix: the lower left neighbor of a spectral cell is the
 diagonal one

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..4504c00 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From d3e4fdce061971feb1aec6b60fd631de96944116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 07/29] fix: watershed points can take the basin of their first
 neighbor

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 4504c00..57a923e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From 467643acae258d63c1a58bd46ee5eb7087a903f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 08/29] fix: whole spectral indexes interpolate to their bin
 instead of NaN

---
 src/spectra.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..cc3c78a 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -155,6 +155,10 @@ impl Spectra {
             return self.frequency[0];
         }
 
+        if i_lower == i_upper {
+            return self.frequency[i_lower as usize];
+        }
+
         let v_lower = self.frequency[i_lower as usize];
         let v_upper = self.frequency[i_upper as usize];
         lerp(&v_lower, &v_upper, &f_index, &i_lower, &i_upper)
@@ -174,6 +178,10 @@ impl Spectra {
             return self.direction[0];
         }
 
+        if i_lower == i_upper {
+            return self.direction[i_lower as usize];
+        }
+
         let v_lower = self.direction[i_lower as usize];
         let v_upper = self.direction[i_upper as usize];
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
-- 
2.43.0


From c6c29c5f0e4419d9e0b8acc1a09be9dfd36e7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 09/29] fix: look up the spectral bins around a frequency and
 direction, and wrap directions when interpolating energy

---
 src/spectra.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index cc3c78a..3975e45 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::PI;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -189,28 +191,21 @@ impl Spectra {
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
-
-        if lower == self.frequency.len() - 1 {
-            (lower, lower)
-        } else {
-            (lower, lower + 1)
+        let last = self.frequency.len() - 1;
+        match self.frequency.iter().rposition(|f| f.le(&freq)) {
+            Some(lower) if lower < last => (lower, lower + 1),
+            Some(_) => (last, last),
+            None => (0, 0),
         }
     }
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
-
-        if lower == self.direction.len() - 1 {
+        let last = self.direction.len() - 1;
+        match self.direction.iter().rposition(|d| d.le(&dir)) {
+            Some(lower) if lower < last => (lower, lower + 1),
             // Direction wraps around cuz its a circle
-            (lower, 0)
-        } else {
-            (lower, lower + 1)
+            _ => (last, 0),
         }
     }
 
@@ -240,13 +235,26 @@ impl Spectra {
         let f2 = self.frequency[x2];
 
         let d1 = self.direction[y1];
-        let d2 = self.direction[y2];
+        let mut d2 = self.direction[y2];
+        let mut dir = dir;
+        if y2 <= y1 {
+            // The bins are on both sides of the wrap
+            d2 += 2.0 * PI;
+            if dir < d1 {
+                dir += 2.0 * PI;
+            }
+        }
 
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
+        if x1 == x2 {
+            // Outside of the frequency range
+            return lerp(&a, &c, &dir, &d1, &d2);
+        }
+
         bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
     }
 
-- 
2.43.0


From efb48ab78804d45dda0479792ae08fd3f0fe0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 10/29] fix: keep the energy of the lowest frequency bin when
 regridding spectra

---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 3975e45..5a1418b 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -617,8 +617,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From 68d7fb0a099db15153167c483e1b3979345647e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 11/29] fix: divide by gravity in the dispersion relation

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..12b8e92 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From dc17d8e26b82121bc8811a562540fb18ecf290e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 12/29] fix: the incident angle of a swell is measured across
 north

---
 src/tools/waves.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 12b8e92..afb9115 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -131,7 +131,9 @@ pub fn estimate_breaking_wave_height(
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() % 360.0;
+    // The angle between the two headings, also across north
+    let incident_angle = incident_angle.min(360.0 - incident_angle) as i32;
 
     if incident_angle > 90 {
         return Err(Error::OutOfRange);
-- 
2.43.0


From 060c378a058eb1b8024d79ff53555bdd46f8e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 13/29] fix: compare the directions of tracked partitions
 across north

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index afb9115..32089a7 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -310,7 +310,7 @@ pub fn track_partitions(
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 50f5994b14a8e2fc3c3388b4db44b9d81a74d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 14/29] fix: new partitions do not reuse the ids of the first
 time step

---
 src/tools/waves.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 32089a7..434b9e6 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -274,9 +274,13 @@ pub fn track_partitions(
     }
 
     // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // we start the partition counter after the largest id of the first time step
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .filter_map(|s| s.partition)
+        .max()
+        .map_or(0, |id| id + 1);
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
@@ -289,6 +293,14 @@ pub fn track_partitions(
         })
         .collect();
 
+    // Partitions of the first time step without an id get a new one
+    for (map, swell) in partition_map[0].iter_mut().zip(inputs[0].1.iter()) {
+        if swell.partition.is_none() {
+            map.0 = partition_count;
+            partition_count += 1;
+        }
+    }
+
     for i in 1..partition_map.len() {
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
-- 
2.43.0


From f8bc2db67ff5abbbbaf4db2df5a2266e41ed49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 15/29] fix: tracking continues with new partitions after a
 time step without any

---
 src/tools/waves.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 434b9e6..41f6ec1 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -305,6 +305,15 @@ pub fn track_partitions(
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
 
+        if prev.1.is_empty() {
+            // Nothing to follow, so every partition is new
+            for map in partition_map[i].iter_mut() {
+                *map = (partition_count, 0.0);
+                partition_count += 1;
+            }
+            continue;
+        }
+
         let dt = (current.0 - prev.0).num_seconds() as f64;
         let dfp_swell = dfp_swell_sea(dt, swell_source_distance);
 
-- 
2.43.0


From e71b7578e0ca7a620e2cd2418d4af37d1e12403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 16/29] fix: integrate the swell components with the bandwidth
 of their own frequency

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 41f6ec1..0b03deb 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -444,7 +444,7 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
-- 
2.43.0


From 05bb1c0597321bea3ee5576dc427a9794fd9307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 17/29] fix: read the average wave period and mean direction
 from their own columns

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 90a81408cba1f3f089f924094f7af39d30729684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 18/29] fix: malformed rows are parsing errors instead of
 panics

---
 .../forecast_spectral_wave_data_record.rs     | 13 ++++++-----
 src/data/grib_index_record.rs                 |  4 ++++
 src/data/latest_obs_data_record.rs            | 23 ++++++++-----------
 src/data/meteorological_data_record.rs        | 17 +++++---------
 src/data/parseable_data_record.rs             | 20 +++++++++++++++-
 src/data/spectral_wave_data_record.rs         |  2 +-
 src/data/wave_data_record.rs                  | 19 ++++++---------
 7 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..1e32970 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -257,29 +257,30 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
+        let year = line.get(0..4).unwrap_or("").parse::<i32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
         })?;
 
-        let month = line[4..6].parse::<u32>().map_err(|e| {
+        let month = line.get(4..6).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
         })?;
 
-        let day = line[6..8].parse::<u32>().map_err(|e| {
+        let day = line.get(6..8).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
         })?;
 
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
+        let hour = line.get(9..11).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
         })?;
 
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
+        let minute = line.get(11..13).unwrap_or("").parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
         })?;
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..9ca9c83 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use csv::Reader;
 use geojson::{Feature, FeatureCollection};
 use serde::{Deserialize, Serialize};
@@ -12,7 +12,7 @@ use crate::{
     units::{Direction, Unit, UnitConvertible, UnitSystem},
 };
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{parse_date_columns, DataRecordParsingError, ParseableDataRecord};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct LatestObsDataRecord {
@@ -50,19 +50,14 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
-        let date = Utc
-            .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
+        let date = parse_date_columns(&row[3..])?;
 
         Ok(LatestObsDataRecord {
             station_id,
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..d15ec27 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -14,7 +14,7 @@ use crate::swell::{Swell, SwellProvider};
 use crate::tools::math::is_some_missing;
 use crate::units::*;
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{parse_date_columns, DataRecordParsingError, ParseableDataRecord};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct MeteorologicalDataRecord {
@@ -42,16 +42,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
-        let date = Utc
-            .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let date = parse_date_columns(row)?;
 
         Ok(MeteorologicalDataRecord {
             date,
diff --git a/src/data/parseable_data_record.rs b/src/data/parseable_data_record.rs
index eb1d726..3889223 100644
--- a/src/data/parseable_data_record.rs
+++ b/src/data/parseable_data_record.rs
@@ -3,7 +3,7 @@ use std::{
     num::{ParseFloatError, ParseIntError},
 };
 
-use chrono::ParseError;
+use chrono::{DateTime, ParseError, TimeZone, Utc};
 use serde::{Deserialize, Serialize};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -51,6 +51,24 @@ impl From<ParseError> for DataRecordParsingError {
     }
 }
 
+/// Reads the date from the leading year, month, day, hour and minute columns of a row
+pub(crate) fn parse_date_columns(row: &[&str]) -> Result<DateTime<Utc>, DataRecordParsingError> {
+    let [year, month, day, hour, minute, ..] = row else {
+        return Err(DataRecordParsingError::InvalidData);
+    };
+
+    Utc.with_ymd_and_hms(
+        year.parse()?,
+        month.parse()?,
+        day.parse()?,
+        hour.parse()?,
+        minute.parse()?,
+        0,
+    )
+    .single()
+    .ok_or(DataRecordParsingError::InvalidData)
+}
+
 pub trait ParseableDataRecord {
     type Metadata;
 
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..9b2acd8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..57508e3 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -1,8 +1,8 @@
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use csv::Reader;
 use serde::{Deserialize, Serialize};
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{parse_date_columns, DataRecordParsingError, ParseableDataRecord};
 use crate::dimensional_data::DimensionalData;
 use crate::swell::{Swell, SwellProvider, SwellSummary};
 use crate::units::*;
@@ -31,16 +31,11 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
-        let date = Utc
-            .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let date = parse_date_columns(row)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From 0ef1380271b02350f37294b2b79439552194b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 19/29] fix: bulletin rows continue into the next year and
 malformed ones are errors

---
 .../forecast_cbulletin_wave_data_record.rs    | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..5b1c136 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -107,7 +107,8 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
 
                 let d = Utc
                     .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)?;
                 Ok(d)
             }
             None => Err(DataRecordParsingError::ParseFailure(
@@ -139,11 +140,16 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
+        // The components follow as triples of height, period and direction
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        let day = timestep.get(0..2).unwrap_or("").parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = timestep.get(2..).unwrap_or("").parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
@@ -152,15 +158,18 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        let (year, month) = if model_date.day() <= day {
+            (model_date.year(), model_date.month())
+        } else if model_date.month() == 12 {
+            (model_date.year() + 1, 1)
         } else {
-            model_date.month()
+            (model_date.year(), model_date.month() + 1)
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
-            .unwrap();
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From e11c45eba65f2a2146af54cfcca7135667885be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:27 +0000
Subject: [PATCH 20/29] fix: bulletin rows without components report
 insufficient data instead of panicking

---
 src/data/forecast_cbulletin_wave_data_record.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 5b1c136..b6506a8 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -219,7 +219,9 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self.swell_components.first().cloned().ok_or_else(|| {
+            crate::swell::SwellProviderError::InsufficientData("no swell components".into())
+        })?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From 1df7ec14e404da65bc05ec1bc9549af52da0f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 21/29] fix: the energy of bulletin components is computed from
 metric heights

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index b6506a8..57afcda 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -193,7 +193,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From c5a3319456abf8c4864a2e67eb5d1c11b90ce7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 22/29] fix: components without a direction are no mirrored
 components

---
 src/swell.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..8abbbc6 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -129,18 +129,16 @@ impl SwellSummary {
                 continue;
             }
 
-            let truth_direction = self.components[i_components[0]]
-                .direction
-                .value
-                .as_ref()
-                .unwrap();
+            let Some(truth_direction) = self.components[i_components[0]].direction.value.as_ref()
+            else {
+                continue;
+            };
 
             // Assuming sorted from max to min energy already
             for i in 1..i_components.len() {
                 let idx = i_components[i];
-                if truth_direction
-                    .is_opposite(self.components[idx].direction.value.as_ref().unwrap())
-                {
+                let direction = self.components[idx].direction.value.as_ref();
+                if direction.map_or(false, |d| truth_direction.is_opposite(d)) {
                     indexes.push(idx);
                 }
             }
-- 
2.43.0


From 561d358b5b13f824c240b489c9a36e49d5b0517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 23/29] fix: stations with tsunami data are active

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..d8ed424 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -131,7 +131,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From 6ced756a22a75d17efc6dc8198aec84311906d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 24/29] fix: interpolate along the latitude when the longitude
 is on the grid

---
 src/model/noaa_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..bde2fc3 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -278,7 +278,7 @@ pub trait NOAAModel {
             a
         } else if lat_lower_index == lat_upper_index {
             lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
+        } else if lng_lower_index == lng_upper_index {
             lerp(&a, &c, &location.latitude, &y0, &y1)
         } else {
             bilerp(
-- 
2.43.0


From a2e38788e89dc2b697588a203a03f3f41dfc8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:36 +0000
Subject: [PATCH 25/29] fix: units parse from their own abbreviations

---
 src/units/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a1a54df..ae9eb31 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -91,7 +91,7 @@ impl From<&str> for Unit {
             "mm" | "millimeters" | "millimeter" => Unit::Millimeters,
             "m" | "meters" | "meter" | "wmounit:m" => Unit::Meters,
             "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" => Unit::MetersPerSecond,
-            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
+            "°c" | "c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
                 Unit::Celsius
             }
             "pa" | "pascals" | "pascal" => Unit::Pascal,
@@ -102,10 +102,10 @@ impl From<&str> for Unit {
             "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
                 Unit::Fahrenheit
             }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
             "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
-- 
2.43.0


From 75a51e3fd2e338197fae7a9252354933e9eed0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 26/29] fix: the unit of a forecast wind speed follows the last
 value of a range

---
 src/data/nws_weather_forecast_data_record.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..b81e046 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -72,7 +72,9 @@ pub struct NwsWeatherForecastDataRecord {
 
 impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
     fn from(data: &NwsWeatherForecastPeriodData) -> Self {
+        // Either a single value, "5 mph", or a range of values, "5 to 10 mph"
         let wind_speed_parts = data.wind_speed.split(" ").collect::<Vec<&str>>();
+        let wind_speed_unit = wind_speed_parts[wind_speed_parts.len() - 1];
 
         Self {
             start_time: data.start_time,
@@ -96,7 +98,7 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
             wind_speed: DimensionalData::from_raw_data(
                 wind_speed_parts[0],
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(wind_speed_unit),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From 1890bb508d570632e53853dc4f278ad4795150de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:29 +0000
Subject: [PATCH 27/29] fix: read whether a buoy has meteorological data from
 its attribute

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index d8ed424..3d7c557 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,7 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(rename = "@met", deserialize_with = "bool_from_simple_str", default)]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From 364047b8aa05107732c754b61fd76e0bdc54bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:29 +0000
Subject: [PATCH 28/29] fix: no sunrise and sunset during the polar day and
 night

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..fee7309 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // The sun does not cross the horizon during the polar day and night
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From 8f657b1a417dcec9167f8eedf9ea3773381cde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:06 +0000
Subject: [PATCH 29/29] fix: settle every cell of a wide watershed into a basin

---
 src/tools/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 57a923e..1218022 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -376,7 +376,8 @@ pub fn watershed(
     // Find nearest neighbor of 0 watershed points and replace
     // use original input to check which group to affiliate with 0
     // Soring changes first in IMD to assure symetry in adjustment.
-    for _ in 0..5 {
+    // A watershed can be wider than a few cells, every round settles at least the next ones
+    for _ in 0..count {
         imd = imo.clone();
 
         for jl in 0..count {
-- 
2.43.0

