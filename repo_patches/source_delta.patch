From ee53a394c25b42682f1c0bfebc0c889c5d0981a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 01/51] fix: adding more than ~224 days to a date no longer
 truncates the day count to 8 bits

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From 7ab0e921469fab69a4635da82d2a71b870105345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 02/51] fix: into_naive_datetime keeps the minutes and seconds
 of the date

---
 calendar/src/date.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d09fc9..bf1387c 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -135,24 +135,14 @@ impl Date {
     /// Because `Date` does not have a year, we need to pass it as a parameter.        
     #[cfg(feature = "chrono")]
     pub fn into_naive_datetime(self, year: i32) -> Result<NaiveDateTime, String> {
-        let hour = self.hour.floor();
-        let remainder = self.hour - hour;
-        let min = remainder * 60.0;
-        let sec = (60.0 - min) * 60.0;
-
-        let mut min = min.round() as u32;
-        let mut sec = sec.round() as u32;
-
-        if min == 60 {
-            min = 59;
-            sec = 59;
-        }
-
-        sec %= 60;
+        // Whole seconds since midnight... never rounding up into the next day
+        let seconds = (self.hour * 3600.0).round().min(86399.0) as u32;
+        let hour = seconds / 3600;
+        let min = (seconds % 3600) / 60;
+        let sec = seconds % 60;
 
         let r = NaiveDate::from_ymd_opt(year, self.month as u32, self.day as u32)
             .ok_or("Could not build chronos::Date")?;
-        let hour = hour.round() as u32;
         let r = r
             .and_hms_opt(hour, min, sec)
             .ok_or("Could not add HMS to chrosnos::Date")?;
-- 
2.43.0


From 8712f0ae89e56238cf06e2a74165e9439c0e0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:56 +0000
Subject: [PATCH 03/51] fix: a period through new year stops when one step
 crosses both new year and its end

---
 calendar/src/period.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..c3b5252 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -133,9 +133,14 @@ impl Iterator for Period {
 
         // println!("     ---- old = {} | new = {} | end = {} |||| vs_end_before = {} | vs_end_after = {} | crossed_new? = {}", old, new, self.end, vs_end_before, vs_end_after, crossed_ny);
 
-        // if !self.goes_through_new_year && (crossed_end || crossed_ny)
-        //     || self.goes_through_new_year && crossed_end && !crossed_ny
-        if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
+        let done = if crossed_ny {
+            // Crossing new year is only fine once, and as long as we do not
+            // go past the end with the same step
+            !self.goes_through_new_year || vs_end_before || !vs_end_after
+        } else {
+            crossed_end
+        };
+        if done {
             return None;
         }
         self.current = new;
-- 
2.43.0


From 03f5cb43e3e5d4a16dc046e2bd1d192f6708bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 04/51] fix: weather after the last record of the year is
 interpolated, not extrapolated

---
 weather/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..3f54086 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,11 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let mut date_n = date.day_of_year();
+                    if i == 0 {
+                        // before the first record of the year, i.e., already past new year
+                        date_n += 365.;
+                    }
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From e39cb9a6f4729508bb65075d48fd65b7df173a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 05/51] fix: EPW wind direction is limited to 360 degrees
 instead of always being at least 360

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From 9494bf21ba29f406a11bb6c6691df52f70e81afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 06/51] fix: pushing to a state header whose values were taken
 leaves it unchanged

---
 model/src/simulation_state.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/src/simulation_state.rs b/model/src/simulation_state.rs
index 07cb27b..10af58d 100644
--- a/model/src/simulation_state.rs
+++ b/model/src/simulation_state.rs
@@ -95,6 +95,13 @@ impl SimulationStateHeader {
     ///
     /// Returns the index of the new element.
     pub fn push(&mut self, e: SimulationStateElement, value: Float) -> Result<usize, String> {
+        if self.default_values.is_none() {
+            return Err(
+                "Trying to push a value to a SimulationStateHeader with no values vector"
+                    .to_string(),
+            );
+        }
+
         if e.is_personal() {
             // If individual, check if we are passed that... if not, count
             // and add
@@ -121,11 +128,6 @@ impl SimulationStateHeader {
         self.elements.push(e);
         if let Some(values) = &mut self.default_values {
             values.push(value);
-        } else {
-            return Err(
-                "Trying to push a value to a SimulationStateHeader with no values vector"
-                    .to_string(),
-            );
         }
         // return
         Ok(ret)
-- 
2.43.0


From 764e6c424f399a63c7a87751aeba1a9b59e129f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:36 +0000
Subject: [PATCH 07/51] fix: a refused fenestration, HVAC or luminaire leaves
 the model and its state unchanged

---
 model/src/model.rs | 48 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..722b0de 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -1020,15 +1020,17 @@ impl Model {
             ));
         }
 
-        // Check the index of this object
-        let fen_index = self.fenestrations.len();
-
-        // Push the OpenFraction state, and map into the object
-        let state_index = self.push_to_state(
-            SimulationStateElement::FenestrationOpenFraction(fen_index),
-            0.,
-        )?;
-        add.set_open_fraction_index(state_index)?;
+        if self.simulation_state.is_none() {
+            return Err(
+                "Cannot add this object tot he model because it no longer has a state".to_string(),
+            );
+        }
+        if add.open_fraction_index().is_some() {
+            return Err(format!(
+                "Fenestration '{}' has already been added to a model",
+                add.name()
+            ));
+        }
 
         // check the parent surface
         let mut parent: Option<Arc<Surface>> = None;
@@ -1078,6 +1080,16 @@ impl Model {
             }
         }
 
+        // Check the index of this object
+        let fen_index = self.fenestrations.len();
+
+        // Push the OpenFraction state, and map into the object
+        let state_index = self.push_to_state(
+            SimulationStateElement::FenestrationOpenFraction(fen_index),
+            0.,
+        )?;
+        add.set_open_fraction_index(state_index)?;
+
         // Add to model, and return a reference
         let add = Arc::new(add);
         self.fenestrations.push(Arc::clone(&add));
@@ -1149,6 +1161,17 @@ impl Model {
             print_warning_no_module(format!("There is already an HVAC called '{}'", add.name()))
         }
 
+        let already_added = match &add {
+            HVAC::ElectricHeater(hvac) => hvac.heating_cooling_consumption_index().is_some(),
+            HVAC::IdealHeaterCooler(hvac) => hvac.heating_cooling_consumption_index().is_some(),
+        };
+        if already_added {
+            return Err(format!(
+                "HVAC '{}' has already been added to a model",
+                add.name()
+            ));
+        }
+
         // Check the index of this object
         let obj_index = self.hvacs.len();
         match &add {
@@ -1231,6 +1254,13 @@ impl Model {
                 add.name()
             ))
         }
+        if add.power_consumption_index().is_some() {
+            return Err(format!(
+                "Luminaire '{}' has already been added to a model",
+                add.name()
+            ));
+        }
+
         let obj_index = self.luminaires.len();
         // Push the state, and map into the object
         let state_index = self.push_to_state(
-- 
2.43.0


From cb4b681d95a4a3c496251c12a5a1eab12c208659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:13 +0000
Subject: [PATCH 08/51] fix: a new n-diagonal matrix is full of the given
 value, as documented

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From 753bbd5eeaafbefd745e7425140fdd2f077d6201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:13 +0000
Subject: [PATCH 09/51] fix: the rows of a narrow n-diagonal matrix hold no
 more elements than there are columns

---
 matrix/src/n_diag_generic_matrix.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index d815326..4ff23a9 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -92,8 +92,12 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         let s = one_sided_n!(N);
         let n_zeroes_before = Self::zeroes_before(row);
         if row < s {
-            // top padding
-            s + 1 + row
+            // top padding... which might be cut by the last column
+            if s + 1 + row < ncols {
+                s + 1 + row
+            } else {
+                ncols
+            }
         } else if n_zeroes_before + N <= ncols {
             // somewhere passed the top padding.
             N
-- 
2.43.0


From 153aa39059f3d7b85153e6db5497d4c62a8b02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:59 +0000
Subject: [PATCH 10/51] fix: wind coefficient of a one-storey building with
 urban shelter is that of the EnergyPlus reference

---
 air/src/resolvers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/air/src/resolvers.rs b/air/src/resolvers.rs
index bed0116..dd3988c 100644
--- a/air/src/resolvers.rs
+++ b/air/src/resolvers.rs
@@ -176,7 +176,7 @@ fn resolve_wind_coefficient(space: &Arc<Space>, building: &Arc<Building>) -> Res
                         },
                         ShelterClass::Urban=>{
                             if n_storeys == 1 {
-                                0.000172
+                                0.000174
                             }else if n_storeys == 2 {
                                 0.000231
                             }else{
-- 
2.43.0


From 3720716736ae59e16631076c7ad8898f01ce4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 11/51] fix: separate the reported columns by commas also when
 a requested output does not exist

---
 src/run_simulation.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..4654743 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,11 +195,8 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    // Not all the requested outputs need to exist
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
@@ -293,11 +290,8 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    // Not all the requested outputs need to exist
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
     let _u = out
-- 
2.43.0


From 319e01850a3f7722fc902f7457174760ef07fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:51 +0000
Subject: [PATCH 12/51] fix: write the whole report also when the output
 accepts only part of a buffer

---
 src/run_simulation.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 4654743..6d32fce 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -201,24 +201,24 @@ where
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out
+        .write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out
+        .write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -244,8 +244,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out
+            .write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -254,12 +254,12 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out
+                .write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
-        let _u = out
-            .write(b"\n")
+        out
+            .write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
@@ -294,24 +294,24 @@ where
     let report_len = pre_process_data.report_indexes.len();
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out
+        .write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out
+        .write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -341,8 +341,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out
+            .write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -351,13 +351,13 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out
+                .write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
         std::mem::drop(state_lock); // drop mutex
-        let _u = out
-            .write(b"\n")
+        out
+            .write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
-- 
2.43.0


From 242defbf53bf029b76b3153fce3d9ec14cb766ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 13/51] fix: the wind direction of the weather is in radians
 already

---
 heat/src/heat_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..e21736f 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -416,7 +416,7 @@ impl SimulationModel for ThermalModel {
             // advance in time
             date.add_seconds(self.dt);
             let current_weather = weather.get_weather_data(date);
-            let wind_direction = current_weather.wind_direction.to_radians();
+            let wind_direction = current_weather.wind_direction;
             let wind_speed = current_weather.wind_speed;
 
             let t_out = current_weather.dry_bulb_temperature;
-- 
2.43.0


From eb0551f1f755f09ed5e8a5e0da776d4b3e5a24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 14/51] fix: heating and cooling change the temperature of a
 space without any other heat exchange

---
 heat/src/heat_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index e21736f..8fcebef 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -714,7 +714,8 @@ impl ThermalModel {
                 );
             } else {
                 // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // unless it has some heating/cooling in it.
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From 80dfe03e881452829af1eafc1cad42749bab625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:36 +0000
Subject: [PATCH 15/51] fix: ignore a negative solar irradiance at the back of
 a surface

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..ffdac6c 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1267,7 +1267,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From a1659d04bbefb175f8d83b2557362e2e3b4b10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 16/51] fix: natural convection of indoor and ambient front
 faces takes the documented orientation

---
 heat/src/convection.rs |  8 ++++----
 heat/src/surface.rs    | 11 +++++------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/heat/src/convection.rs b/heat/src/convection.rs
index dd98051..dc8c72c 100644
--- a/heat/src/convection.rs
+++ b/heat/src/convection.rs
@@ -90,12 +90,12 @@ impl ConvectionParams {
 
         let h = if delta_t.abs() < 1e-3 || self.cos_surface_tilt.abs() < 1e-3 {
             1.31 * abs_delta_t.powf(1. / 3.)
-        } else if (delta_t < 0. && self.cos_surface_tilt < 0.)
-            || (delta_t > 0. && self.cos_surface_tilt > 0.)
+        } else if (delta_t < 0. && self.cos_surface_tilt > 0.)
+            || (delta_t > 0. && self.cos_surface_tilt < 0.)
         {
             9.482 * abs_delta_t.powf(1. / 3.) / (7.238 - self.cos_surface_tilt.abs())
-        } else if (delta_t > 0. && self.cos_surface_tilt < 0.)
-            || (delta_t < 0. && self.cos_surface_tilt > 0.)
+        } else if (delta_t > 0. && self.cos_surface_tilt > 0.)
+            || (delta_t < 0. && self.cos_surface_tilt < 0.)
         {
             1.81 * abs_delta_t.powf(1. / 3.) / (1.382 + self.cos_surface_tilt.abs())
         } else {
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index ffdac6c..aa6a7fb 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -589,7 +589,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_back,
                     surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -635,7 +635,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             }
             Boundary::Ground => unreachable!(),
             Boundary::Outdoor => {
-                let mut front_env = ConvectionParams {
+                let front_env = ConvectionParams {
                     air_temperature: t_front,
                     air_speed: wind_speed * self.wind_speed_modifier,
                     rad_temperature: (ir_front / crate::SIGMA).powf(0.25) - 273.15,
@@ -643,7 +643,6 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-                front_env.cos_surface_tilt = -self.cos_tilt;
 
                 let front_hs = match self.front_hs {
                     Some(v) => v,
@@ -670,7 +669,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_back, //self.parent.back_temperature(state),//(ir_back/crate::SIGMA).powf(0.25) - 273.15,
                     surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
                 let back_hs = match self.back_hs {
                     Some(v) => v,
@@ -686,7 +685,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let back_hs = match self.back_hs {
@@ -705,7 +704,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: (ir_back / crate::SIGMA).powf(0.25) - 273.15,
                     surface_temperature,
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
                 let back_hs = match self.back_hs {
                     Some(v) => v,
-- 
2.43.0


From 008518ad288c6529cf7e52e2d3d476597ddb2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 17/51] fix: the back of a surface facing an ambient
 temperature uses its own temperature

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index aa6a7fb..dde2824 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -683,7 +683,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: -self.cos_tilt,
                 };
-- 
2.43.0


From 1b409836cc40c26de3e658de4f161d2d2571337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 18/51] fix: the back of a surface is windward when the back
 faces the wind

---
 heat/src/surface.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index dde2824..62bae28 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -579,6 +579,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
         let ir_back = self.parent.back_infrared_irradiance(state);
 
         let windward = is_windward(wind_direction, self.cos_tilt, self.normal);
+        let back_windward = is_windward(wind_direction, self.cos_tilt, self.normal * -1.);
 
         // TODO: There is something to do here if we are talking about windows
         let (front_env, mut front_hs) = match &self.front_boundary {
@@ -711,7 +712,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => back_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        back_windward,
                     ),
                 };
 
-- 
2.43.0


From ab8c73af7177c676ca9f742f9865813b173dc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 19/51] fix: a horizontal cavity heated from above does not
 convect

---
 heat/src/gas.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..05f3a96 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -198,8 +198,6 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     const THIRTY_RAD: Float = 30. * crate::PI / 180.;
     const EPSILON_RAD: Float = 0.5 * crate::PI / 180.;
 
-    let gamma = gamma % crate::PI;
-
     if (0.0..2. * THIRTY_RAD - EPSILON_RAD).contains(&gamma) {
         // Between 0 and 60 degrees
         nu_0_60(ra, gamma, a_gi)
@@ -212,11 +210,9 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     } else if gamma < 3. * THIRTY_RAD + EPSILON_RAD {
         // 90 degrees
         nu_90(ra, a_gi)
-    } else if gamma < 6. * THIRTY_RAD {
+    } else {
         // between 90 and 180 degrees
         nu_90_180(ra, a_gi, gamma)
-    } else {
-        unreachable!("gamma is {}", gamma)
     }
 }
 
@@ -286,14 +282,12 @@ fn nu_90(ra: Float, a_gi: Float) -> Float {
     let nu1 = if ra <= 1e4 {
         // Eq. 52
         1. + 1.7596678 * 1e-10 * ra.powf(2.2984755)
-    } else if ra < 5e4 {
+    } else if ra <= 5e4 {
         // Eq. 51
         0.028154 * ra.powf(0.4134)
-    } else if ra > 5e4 {
+    } else {
         // Eq. 50
         0.0673838 * ra.powf(1. / 3.)
-    } else {
-        unreachable!()
     };
     // Eq. 53
     let nu2 = 0.242 * (ra / a_gi).powf(0.272);
-- 
2.43.0


From 1e1088594c9a0f1eeb87d4be615ca1c3c6dba73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:41 +0000
Subject: [PATCH 20/51] fix: solar radiation on the back of a surface is
 absorbed by the back of its layers

---
 heat/src/surface.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 62bae28..fd8e45a 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -431,7 +431,11 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
 
         // Calculate solar absoption
         let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
-        let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
+        // Seen from the back, the back of each layer is what faces the Sun
+        let back_glazing: Vec<Glazing> = Glazing::get_back_glazing_system(construction, model)?
+            .iter()
+            .map(|g| Glazing::new(g.tau(), g.rho_back(), g.rho_front()))
+            .collect();
         // These two are the absorbtion of each glazing layer. We need the absorption of each node
         let front_alphas_prev = Glazing::alphas(&front_glazing);
 
-- 
2.43.0


From 7462fedf0cb5971871bc25eaa92087325b4754d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:37 +0000
Subject: [PATCH 21/51] fix: solve the radiative exchange of no-mass nodes
 together with the rest of their balance

---
 heat/src/surface.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index fd8e45a..451d5ef 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1073,6 +1073,18 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                 memory,
             )?;
 
+            // The radiative exchange depends on the unknown temperatures as much as
+            // convection does... iterating on it might not converge.
+            if ini == 0 {
+                memory.k.add_to_element(0, 0, -front_rad_hs)?;
+                memory.q[0] += front_rad_hs * global_temperatures.get(0, 0)?;
+            }
+            if fin == self.discretization.segments.len() {
+                let last = fin - ini - 1;
+                memory.k.add_to_element(last, last, -back_rad_hs)?;
+                memory.q[last] += back_rad_hs * global_temperatures.get(fin - 1, 0)?;
+            }
+
             // add solar gains
             for (local_i, i) in (ini..fin).enumerate() {
                 let v = solar_radiation.get(i, 0)?;
-- 
2.43.0


From 76bbc328c6534fc964a471aa6688f9f0a7050c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 22/51] fix: a layer whose transmittance and absorptance add up
 to 1 no longer panics by rounding

---
 heat/src/glazing.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 020764e..9d93d43 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -64,6 +64,18 @@ impl Glazing {
         }
     }
 
+    /// Calculates the reflectance of a layer that transmits `tau` and
+    /// absorbs `alpha`, which might add up to marginally more than 1 due to
+    /// floating point errors (e.g., `1. - 0.9 - 0.1`).
+    fn reflectance(tau: Float, alpha: Float) -> Float {
+        let rho = 1. - tau - alpha;
+        if rho.abs() < 1e-9 {
+            0.
+        } else {
+            rho
+        }
+    }
+
     fn get_glazing_from_iter<T>(mut i: T, model: &Model, cap: usize) -> Result<Vec<Glazing>, String>
     where
         T: std::iter::Iterator<Item = String>,
@@ -83,8 +95,8 @@ impl Glazing {
                     let tau = s.solar_transmittance().unwrap_or(&0.0);
                     let alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
                     let alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
-                    let rho_front = 1. - tau - alpha_front;
-                    let rho_back = 1. - tau - alpha_back;
+                    let rho_front = Self::reflectance(*tau, *alpha_front);
+                    let rho_back = Self::reflectance(*tau, *alpha_back);
                     ret.push(Glazing::new(*tau, rho_front, rho_back));
 
                     // if not translucent, then we are done.
-- 
2.43.0


From 1a8d3577681ab007ac24a2a3a7437bb7d2edca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:48 +0000
Subject: [PATCH 23/51] fix: asking a control script for an object by index
 when there are none is an error, not a panic

---
 derive/src/object_enum.rs   | 2 +-
 derive/src/object_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/object_enum.rs b/derive/src/object_enum.rs
index 966e0d4..c4039a7 100644
--- a/derive/src/object_enum.rs
+++ b/derive/src/object_enum.rs
@@ -366,7 +366,7 @@ impl EnumObject {
                             return Err(format!(#negative_index_err, index).into())
                         }
                         if index >= len as i64 {
-                            return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                            return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                         }
                         match &new_mod.#location[index as usize]{
                             #index_match_statement
diff --git a/derive/src/object_struct.rs b/derive/src/object_struct.rs
index a1b3617..3630a34 100644
--- a/derive/src/object_struct.rs
+++ b/derive/src/object_struct.rs
@@ -630,7 +630,7 @@ impl StructObject {
                     return Err(format!(#negative_index_err, index).into())
                 }
                 if index >= len as i64 {
-                    return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                    return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                 }
                 Ok(std::sync::Arc::clone(&new_mod.#location[index as usize]))
             });
-- 
2.43.0


From cf50370edb94595ae9a8d1f6648c8aeff71e204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:40 +0000
Subject: [PATCH 24/51] fix: the Perez sky is never darker than black

---
 weather/src/solar/perez.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..40fc54e 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -376,7 +376,8 @@ impl PerezSky {
 
         // Return
         Box::new(move |dir: Vector3D| -> Float {
-            let sky = ret(dir);
+            // The normalization does not consider negative values either
+            let sky = ret(dir).max(0.0);
             sky * norm_diff_illum
         })
     }
-- 
2.43.0


From d908e2b1d85aaed27814c430b59eb56433a4c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:53 +0000
Subject: [PATCH 25/51] fix: updating a sky vector replaces its values

---
 weather/src/solar/perez.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 40fc54e..718adbf 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -436,11 +436,13 @@ impl PerezSky {
         let diffuse_horizontal_irrad = weather_data.diffuse_horizontal_radiation;
         let direct_normal_irrad = weather_data.direct_normal_radiation;
 
-        // If it is nighttime, just fill with zeroes
+        // Forget the previous values
+        for bin in 0..r.n_bins {
+            vec.set(bin, 0, 0.0)?;
+        }
+
+        // If it is nighttime, leave it filled with zeroes
         if direct_normal_irrad + diffuse_horizontal_irrad < 1e-4 {
-            for bin in 0..r.n_bins {
-                vec.set(bin, 0, 0.0)?;
-            }
             return Ok(());
         }
 
-- 
2.43.0


From 9b9d69aa258730e5aaee06b5462b43d905a53429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 26/51] fix: a point is inside a loop even when the test ray
 goes through a vertex

The ray cast compared intersection parameters with exact 0 and 1, so that rounding made
a ray through a vertex count none or both of its edges. Every vertex is now assigned to one side of
the ray's line.
---
 geometry/src/loop3d.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..6545e1e 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -716,9 +716,11 @@ impl Loop3D {
             return Ok(false);
         }
 
-        // Ray cast
-        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
-        let ray = Segment3D::new(point, point + d);
+        // Ray cast, away from the middle of the first edge. Each vertex is assigned
+        // to one side of the ray's line, and always the same one, so that a ray that
+        // goes through a vertex does not count its edges twice (or not at all).
+        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
+        let side = |v: Point3D| d.cross(v - point) * self.normal;
 
         let mut n_cross = 0;
         let n = self.vertices.len();
@@ -732,28 +734,13 @@ impl Loop3D {
                 return Ok(true);
             }
 
-            // Check if the ray and the segment touch. We only consider
-            // touching at the start (e.g., t_a between [0 and 1) ) in
-            // order not to count vertices twice.
-            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
-                // If the ray intersects
-                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
-                    if t_a < Float::EPSILON {
-                        // if the intersection is at the start of the segment
-                        let side_normal = d.cross(segment_ab.as_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    } else if t_a < 1. {
-                        // intersection is within the segment (not including the end)
-                        n_cross += 1;
-                    } else {
-                        // if the intersection is at the end of the segment
-                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    }
+            // Check if the segment goes across the ray's line... and if it does
+            // so ahead of the point
+            let (side_a, side_b) = (side(vertex_a), side(vertex_b));
+            if (side_a > 0.) != (side_b > 0.) {
+                let cross_at = vertex_a + segment_ab.as_vector3d() * (side_a / (side_a - side_b));
+                if d * (cross_at - point) > 0. {
+                    n_cross += 1;
                 }
             }
         }
-- 
2.43.0


From f57848ea1032c0f6a8733d4b87d01407d38d3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:54 +0000
Subject: [PATCH 27/51] fix: walk holes backwards correctly when joining them
 to the outer loop

The index wrapped around the size of usize, which skipped or repeated vertices of holes whose
number of vertices is not a power of two.
---
 geometry/src/polygon3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..dac68b7 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,7 +345,7 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + n_inner_loop_vertices - j) % n_inner_loop_vertices
                         } else {
                             (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
                         };
-- 
2.43.0


From 1171e3d9a98f4fd9461e771f8ced171397562ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 28/51] fix: get_closed_loop joins several holes to one vertex
 without crossing paths

---
 geometry/src/polygon3d.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index dac68b7..ef0e6c2 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -322,6 +322,30 @@ impl Polygon3D {
                 } // end iterating inner loops
             } // end iterating exterior vertices
 
+            // The vertex can be in the loop more than once, if other inner loops
+            // were already connected through it. Use the one from which the inside
+            // opens towards the loop being connected; otherwise the paths would cross
+            let inner_vertex = self.inner[inner_loop_id][inner_vertex_id];
+            for j in min_ext_vertex_id..n_ext_vertices {
+                let at = ret_loop[j];
+                if !at.compare(ret_loop[min_ext_vertex_id]) {
+                    continue;
+                }
+                let before = ret_loop[(j + n_ext_vertices - 1) % n_ext_vertices] - at;
+                let after = ret_loop[(j + 1) % n_ext_vertices] - at;
+                let towards = inner_vertex - at;
+                let is_left = |a: Vector3D, b: Vector3D| a.cross(b) * outer_normal > 0.;
+                let opens = if is_left(after, before) {
+                    is_left(after, towards) && is_left(towards, before)
+                } else {
+                    is_left(after, towards) || is_left(towards, before)
+                };
+                if opens {
+                    min_ext_vertex_id = j;
+                    break;
+                }
+            }
+
             // Now, pass the inner loop to the exterior loop
             // by connecting them
             let mut aux = Loop3D::new();
-- 
2.43.0


From da6de9d7377ab67e29b335124170a97b996cf405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 29/51] fix: triangulate polygons by cutting only ears off

---
 geometry/src/triangulation3d.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 5652d9e..16850b8 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -33,7 +33,7 @@ use crate::Float;
 
 */
 
-use crate::{Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};
+use crate::{Loop3D, Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D, Vector3D};
 
 #[derive(Clone, Copy, Eq, PartialEq, Debug)]
 #[repr(u8)]
@@ -237,7 +237,9 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
-            if (n == 3) || (!is_line && is_diagonal) {
+            if (n == 3)
+                || (!is_line && is_diagonal && is_ear(&the_loop, poly.normal(), v0, v1, v2)?)
+            {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
@@ -264,6 +266,31 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
     }
 }
 
+/// Checks that cutting the corner `v0`, `v1`, `v2` off a loop only takes what is inside of it,
+/// and leaves no other vertex of the loop on the triangle or in the diagonal.
+fn is_ear(
+    the_loop: &Loop3D,
+    normal: Vector3D,
+    v0: Point3D,
+    v1: Point3D,
+    v2: Point3D,
+) -> Result<bool, String> {
+    if (v1 - v0).cross(v2 - v1) * normal <= 0. {
+        // not a convex corner
+        return Ok(false);
+    }
+    let triangle = Triangle3D::new(v0, v1, v2)?;
+    let diagonal = Segment3D::new(v0, v2);
+    for p in the_loop.vertices() {
+        if !triangle.has_vertex(*p)
+            && (diagonal.contains_point(*p)? || triangle.test_point(*p) != PointInTriangle::Outside)
+        {
+            return Ok(false);
+        }
+    }
+    Ok(true)
+}
+
 impl std::convert::TryFrom<Polygon3D> for Triangulation3D {
     type Error = String;
 
-- 
2.43.0


From 94c48c65198cebbfbbe4cb98d850c608b1327d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 30/51] fix: triangulation's limit of iterations rejected
 polygons with many vertices

---
 geometry/src/triangulation3d.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 16850b8..cc9b487 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -211,11 +211,10 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
         let mut t = Triangulation3D::with_capacity(the_loop.len() - 2);
 
         let mut anchor = 0;
+        // candidates rejected since the last triangle was added
         let mut count = 0;
         loop {
-            count += 1;
-
-            if count > 220 {
+            if count > the_loop.len() {
                 return Err("Excessive number of iteration when triangulating polygon".into());
             }
 
@@ -259,8 +258,10 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
                 //remove v1
                 the_loop.remove((anchor + 1) % n);
+                count = 0;
             } else {
                 anchor += 1;
+                count += 1;
             }
         }
     }
-- 
2.43.0


From 44101caa3fdfe404a1191f949690e8b146258827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 31/51] fix: small triangles are not parallel to every ray

---
 rendering/src/triangle/fallback.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rendering/src/triangle/fallback.rs b/rendering/src/triangle/fallback.rs
index 9a90b8d..eed427d 100644
--- a/rendering/src/triangle/fallback.rs
+++ b/rendering/src/triangle/fallback.rs
@@ -24,9 +24,14 @@ pub fn baricentric_coordinates(ray: Ray3D, t: &Triangle) -> Option<(Point3D, Flo
     let h = ray.direction.cross(edge2);
     let a = edge1 * h;
 
-    if a < TINY && a > -TINY {
+    // `a` scales with the lengths of the two edges. Hence, comparing it with
+    // an absolute value would make small triangles invisible.
+    if a * a < 1e-20 * edge1.length_squared() * edge2.length_squared() {
         return None; // ray is parallel
     }
+    if a == 0.0 {
+        return None; // ray is parallel, or the triangle is degenerate
+    }
     let f = 1. / a;
     let s = Vector3D::new(
         ray.origin.x - ax![t],
-- 
2.43.0


From 0c0a8275d7836a8d48df6b29f421b1e2273beca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 32/51] fix: use the properties of the back side for the back
 of the scene's elements

---
 rendering/src/from_simple_model.rs | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/rendering/src/from_simple_model.rs b/rendering/src/from_simple_model.rs
index a261d0f..f52a108 100644
--- a/rendering/src/from_simple_model.rs
+++ b/rendering/src/from_simple_model.rs
@@ -81,7 +81,7 @@ impl SimpleModelReader {
 
             let front_substance = model.get_material_substance(front_mat_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, false)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -93,7 +93,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(last_mat_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, true)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -129,7 +129,7 @@ impl SimpleModelReader {
             let front_material_name = &construction.materials[0];
             let front_substance = model.get_material_substance(front_material_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, wavelength, false)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -140,7 +140,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(back_material_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, wavelength, true)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -168,13 +168,14 @@ impl SimpleModelReader {
         scene: &mut Scene,
         substance: &Substance,
         wavelength: &Wavelengths,
+        back: bool,
     ) -> Option<usize> {
         let substance_name = substance.name().to_string();
         match self.get_modifier_index(&substance_name) {
             Some(i) => Some(i),
             None => {
                 // Material is not there... add, then.
-                let front_mat = Self::substance_to_material(substance, wavelength)?;
+                let front_mat = Self::substance_to_material(substance, wavelength, back)?;
                 Some(scene.push_material(front_mat))
             }
         }
@@ -189,19 +190,34 @@ impl SimpleModelReader {
         None // not found
     }
 
-    /// Transformsa a Model Substance into a Material
-    fn substance_to_material(substance: &Substance, wavelength: &Wavelengths) -> Option<Material> {
+    /// Transformsa a Model Substance into a Material, using the properties
+    /// of its front or of its back side
+    fn substance_to_material(
+        substance: &Substance,
+        wavelength: &Wavelengths,
+        back: bool,
+    ) -> Option<Material> {
         match substance {
             Substance::Normal(s) => {
+                let solar_absorbtance = if back {
+                    s.back_solar_absorbtance()
+                } else {
+                    s.front_solar_absorbtance()
+                };
+                let visible_reflectance = if back {
+                    s.back_visible_reflectance()
+                } else {
+                    s.front_visible_reflectance()
+                };
                 let alpha = match *wavelength {
-                    Wavelengths::Solar => match s.front_solar_absorbtance() {
+                    Wavelengths::Solar => match solar_absorbtance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
                             0.7
                         }
                     },
-                    Wavelengths::Visible => match s.front_visible_reflectance() {
+                    Wavelengths::Visible => match visible_reflectance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
-- 
2.43.0


From 7395f9260954762368c57860704d4095cbebd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 33/51] fix: invert composed transforms in the right order

---
 geometry/src/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..175391d 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,8 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        // (A * B)^-1 = B^-1 * A^-1
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From 9f4b9fb8b19136673e02e54e41c741a72e28e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 34/51] fix: orient cylinders along their axis

---
 geometry/src/cylinder3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/cylinder3d.rs b/geometry/src/cylinder3d.rs
index 4d18a31..74dc4d7 100644
--- a/geometry/src/cylinder3d.rs
+++ b/geometry/src/cylinder3d.rs
@@ -72,8 +72,8 @@ impl Cylinder3D {
         let rot_y_degrees = (x * x + y * y).sqrt().atan2(z).to_degrees();
         let rot_z_degrees = y.atan2(x).to_degrees();
 
-        transform *= Transform::rotate_y(rot_y_degrees);
         transform *= Transform::rotate_z(rot_z_degrees);
+        transform *= Transform::rotate_y(rot_y_degrees);
 
         Self::new_transformed(
             radius,
-- 
2.43.0


From f4230c17ab9f12ebe4e47ec8cfeeb37c7450bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 35/51] fix: rays do not hit triangles beyond their third side

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..b25fdac 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -57,7 +57,7 @@ pub fn intersect_triangle(
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if v < 0.0 || u + v > 1.0 {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From 36a6e2b3a7e8abf714daa8b2cf190526bd69fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 36/51] fix: solid angle pdf of triangles uses the direction of
 the ray

---
 rendering/src/primitive_samplers.rs | 3 ++-
 rendering/src/triangle/mod.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 5046158..d25d3f9 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -56,7 +56,8 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (info.p - ray.origin).length_squared();
-    let cos_theta = ray.origin * info.normal;
+    // The normal might be facing either way
+    let cos_theta = (ray.direction * info.normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
diff --git a/rendering/src/triangle/mod.rs b/rendering/src/triangle/mod.rs
index f8d834b..c1bb389 100644
--- a/rendering/src/triangle/mod.rs
+++ b/rendering/src/triangle/mod.rs
@@ -90,7 +90,8 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (point - ray.origin).length_squared();
-    let cos_theta = ray.origin * normal;
+    // The normal might be facing either way
+    let cos_theta = (ray.direction * normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
-- 
2.43.0


From 57f8b89ec05a3fd0ea73186fd1d27f6e799a98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 37/51] fix: stability and water classes were swapped when
 estimating direct radiation

---
 weather/src/solar/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..32f577f 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -614,7 +614,7 @@ impl Solar {
         let w_bin = perez_direct_rad_w_bin(w);
         let delta_ktp_bin = perez_direct_rad_delta_kt_bin(delta_kt_p);
 
-        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, w_bin, delta_ktp_bin);
+        let x = perez_direct_rad_coefs(ktp_bin, zeta_bin, delta_ktp_bin, w_bin);
 
         x * self.disc_direct_solar(
             n,
@@ -712,7 +712,7 @@ fn perez_direct_rad_w_bin(w: Float) -> usize {
 }
 
 /// Gets the coefficients to be used in equation 5 of /// Ineichen, P., Perez, R. R., Seal, R. D., Maxwell, E. L., & Zalenka, A. J. A. T. (1992). Dynamic global-to-direct irradiance conversion models. ASHRAE transactions, 98(1), 354-369.    
-fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_kt: usize) -> Float {
+fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, delta_kt: usize, prec_water: usize) -> Float {
     const C00: [Float; 35] = [
         0.385230, 0.385230, 0.385230, 0.462880, 0.317440, 0.338390, 0.338390, 0.221270, 0.316730,
         0.503650, 0.235680, 0.235680, 0.241280, 0.157830, 0.269440, 0.830130, 0.830130, 0.171970,
@@ -968,7 +968,8 @@ fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_k
         0.518640, 0.339970, 0.520230, 0.743440, 0.592190, 0.603060, 0.316930, 0.794390,
     ];
 
-    let i = prec_water * 5 + delta_kt;
+    // Seven classes of stability, times five classes of precipitable water
+    let i = delta_kt * 5 + prec_water;
 
     match (kt_p, zenith) {
         (0, 0) => C00[i],
-- 
2.43.0


From 2633ee2e632a35e488a451b59eabbf89498297a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 38/51] fix: no direct radiation, instead of NaN, when there is
 no global radiation

---
 weather/src/solar/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 32f577f..1b302a6 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -482,8 +482,7 @@ impl Solar {
         pressure: Float,
     ) -> Float {
         let kt = self.hourly_clearness_index(n, global_normal_radiation);
-        let extra_rad = global_normal_radiation / kt; // extraterrestrial;
-                                                      // dbg!(extra_rad);
+        let extra_rad = self.normal_extraterrestrial_radiation(self.unwrap_solar_time(n));
         if kt < 0.0 {
             return 0.0;
         }
-- 
2.43.0


From 1720495f452ace9358fc7ccb3312d2d184805e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:56 +0000
Subject: [PATCH 39/51] fix: view factors ignored every object but the one
 straight ahead of a surface

Rays were always cast along the normal, whatever the direction sampled, and
the ones that hit something counted for nothing (air is what is not sky nor
ground).
---
 light/src/solar_surface.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index 2a400e7..f565eb4 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -307,6 +307,7 @@ impl SolarSurface {
 
         let mut ground = 0.0;
         let mut sky = 0.0;
+        let mut air = 0.0;
 
         let n_samples = 10000;
         let mut node_aux = [0; 32];
@@ -318,13 +319,20 @@ impl SolarSurface {
             for _ in 0..n_samples {
                 let u = rng.gen();
                 let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
+                let sample = Ray3D {
+                    origin: ray.origin,
+                    direction: dir,
+                };
 
-                if scene.cast_ray(*ray, &mut node_aux).is_none() {
+                if scene.cast_ray(sample, &mut node_aux).is_none() {
                     if dir.z > 0.0 {
                         sky += 1.0;
                     } else {
                         ground += 1.;
                     }
+                } else {
+                    // Other objects are assumed to be at air temperature
+                    air += 1.;
                 }
             }
         }
@@ -332,9 +340,10 @@ impl SolarSurface {
         let n = n_samples as Float * rays.len() as Float;
         ground /= n;
         sky /= n;
+        air /= n;
 
         let beta = sky.sqrt();
-        let air = sky * (1. - beta);
+        air += sky * (1. - beta);
         sky *= beta;
 
         Ok(IRViewFactorSet { sky, ground, air })
-- 
2.43.0


From 25fc0d1e2b6f9420cf7d694221ab2a6ce2f166c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 40/51] fix: view factors were not weighted by the cosine of
 the angle to the normal

A surface tilted b from the horizontal sees (1 + cos b)/2 of sky, not 1 - b/pi.
---
 light/src/solar_surface.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index f565eb4..ee8f815 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -318,7 +318,9 @@ impl SolarSurface {
 
             for _ in 0..n_samples {
                 let u = rng.gen();
-                let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
+                // View factors are weighted by the cosine of the angle to the normal
+                let local = rendering::samplers::sample_cosine_weighted_horizontal_hemisphere(u);
+                let dir = e1 * local.x + e2 * local.y + normal * local.z;
                 let sample = Ray3D {
                     origin: ray.origin,
                     direction: dir,
-- 
2.43.0


From c8e360284dbae5dbdf20851524bdb748d25f4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 41/51] fix: braces within strings and comments of an object
 were counted

Also, a text which ended before the object of its last word was read for ever.
---
 model/src/scanner.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..7a51d31 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -175,7 +175,20 @@ impl<'a> SimpleScanner<'a> {
         let (mut open, mut close) = ('{', '}');
 
         while levels > 0 || !started {
+            if self.finished {
+                let errmsg = Self::make_error_msg("Unexpected End of File", self.line);
+                return Err(errmsg);
+            }
             let next = self.peek();
+            // Whatever is within strings and comments does not count
+            if started && (next == '"' || next == '\'') {
+                self.string(next)?;
+                continue;
+            }
+            if started && next == '/' && matches!(self.peek_next(), '/' | '*') {
+                self.skip_white_space()?;
+                continue;
+            }
             if !started && (next == ',') {
                 let errmsg = Self::make_error_msg("Malformed enum object. These should have parentheses (e.g., not 'ShelterClass::Urban' but 'ShelterClass::Urban()' )", self.line);
                 return Err(errmsg);
@@ -200,7 +213,6 @@ impl<'a> SimpleScanner<'a> {
 
             if self.current_index == self.source.len() {
                 self.finished = true;
-                break;
             }
         }
 
@@ -208,6 +220,25 @@ impl<'a> SimpleScanner<'a> {
         Ok((self.start_index, self.current_index))
     }
 
+    /// Consumes a string, including the quotes at its ends
+    fn string(&mut self, quote: char) -> Result<(), String> {
+        let mut escaped = false;
+        self.advance();
+        while let Some(c) = self.advance() {
+            if c == '\n' {
+                self.line += 1;
+            }
+            if escaped {
+                escaped = false;
+            } else if c == '\\' {
+                escaped = true;
+            } else if c == quote {
+                return Ok(());
+            }
+        }
+        Err(Self::make_error_msg("Unterminated string", self.line))
+    }
+
     /// Updates the start index; i.e., sets the `start_index` to the `current_index`
     fn update_start_index(&mut self) {
         self.start_index = self.current_index;
-- 
2.43.0


From 3b2df555a3218f68dae0bc8d7a624b3af01f8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 42/51] fix: objects of an unknown class were silently left out
 of the model

---
 model/src/scanner.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 7a51d31..3041b64 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -247,6 +247,21 @@ impl<'a> SimpleScanner<'a> {
     /// Parses a whole [`Model`] from a text file
     pub(crate) fn parse_model(&mut self) -> Result<(Model, SimulationStateHeader), String> {
         let mut data = HashMap::<String, Vec<(&str, usize)>>::new();
+        let read_order = vec![
+            "Space",
+            "Substance",
+            "Material",
+            "Construction",
+            "Surface",
+            "Fenestration",
+            "Building",
+            "HVAC",
+            "Luminaire",
+            "Object",
+            "Output",
+            "SiteDetails",
+            "SolarOptions",
+        ];
 
         loop {
             self.skip_white_space()?;
@@ -258,7 +273,12 @@ impl<'a> SimpleScanner<'a> {
 
             // Scan identifier
             let (ini, fin) = self.identifier()?;
-            let ident = &self.source[ini..fin];
+            let ident = std::str::from_utf8(&self.source[ini..fin]).expect("Could not scan");
+            if !read_order.contains(&ident) {
+                let errmsg =
+                    Self::make_error_msg(format!("unknown identifier '{}'", ident), self.line);
+                return Err(errmsg);
+            }
 
             // Skip whitespaces
             self.skip_white_space()?;
@@ -275,9 +295,7 @@ impl<'a> SimpleScanner<'a> {
             };
 
             // Store.
-            let key = std::str::from_utf8(ident)
-                .expect("Could not scan")
-                .to_string();
+            let key = ident.to_string();
             if let Some(v) = data.get_mut(&key) {
                 v.push((obj_str, self.line));
             } else {
@@ -286,21 +304,6 @@ impl<'a> SimpleScanner<'a> {
         }
         // Now, build the model
         let mut model = Model::default();
-        let read_order = vec![
-            "Space",
-            "Substance",
-            "Material",
-            "Construction",
-            "Surface",
-            "Fenestration",
-            "Building",
-            "HVAC",
-            "Luminaire",
-            "Object",
-            "Output",
-            "SiteDetails",
-            "SolarOptions",
-        ];
 
         for ident in read_order {
             if !data.contains_key(ident) {
-- 
2.43.0


From 55b5f46096f483bbf50438dbdb0f12e29519a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 43/51] fix: the solar options were missing from the text of a
 model

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 722b0de..0a15a76 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From ccbb8236671f8253b80e7c098e7ec116884f14a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 44/51] fix: a JSON model was refused when its windows came
 before their walls

---
 model/src/model.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 0a15a76..271d1bf 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -191,6 +191,8 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut model = Model::default();
+        // These refer to other objects, which might come later
+        let mut fenestrations: Vec<Fenestration> = Vec::new();
 
         while let Some(key) = map.next_key::<&[u8]>()? {
             match key {
@@ -207,12 +209,7 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
                     }
                 }
                 b"fenestrations" => {
-                    let objs: Vec<Fenestration> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        model
-                            .add_fenestration(o)
-                            .map_err(serde::de::Error::custom)?;
-                    }
+                    fenestrations = map.next_value()?;
                 }
                 b"hvacs" => {
                     let objs: Vec<HVAC> = map.next_value()?;
@@ -281,6 +278,12 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
             }
         }
 
+        for o in fenestrations.into_iter() {
+            model
+                .add_fenestration(o)
+                .map_err(serde::de::Error::custom)?;
+        }
+
         Ok(model)
     }
 }
-- 
2.43.0


From a8d86040fcd213bb6fb84d88ce30615269ecb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 45/51] fix: vertices that are not triplets of numbers panicked
 instead of being refused

---
 geometry/src/loop3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 6545e1e..3634d14 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -152,7 +152,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get X... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 let y = it.next();
                 let y = match y {
@@ -161,7 +165,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Y... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 let z = it.next();
                 let z = match z {
@@ -170,7 +178,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Z... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 // We push "as is"
                 ret.push_collinear(Point3D { x, y, z }, false)
-- 
2.43.0


From ccab2dcf1057a86fb4060f0b4c21f42b19733319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 46/51] fix: a pinhole camera finds the pixel of a ray on films
 that are not square, and none behind it

---
 rendering/src/camera/pinhole.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/rendering/src/camera/pinhole.rs b/rendering/src/camera/pinhole.rs
index 6bc38f8..e92014a 100644
--- a/rendering/src/camera/pinhole.rs
+++ b/rendering/src/camera/pinhole.rs
@@ -63,8 +63,8 @@ impl Camera for Pinhole {
         let direction = ray.direction;
         let normal = self.view.view_direction;
         let cos = normal * direction;
-        if cos.abs() < 1e-12 {
-            // The ray does not intersect at all.... its weight is Zero
+        if cos < 1e-12 {
+            // The ray does not intersect at all (e.g., it goes backwards)... its weight is Zero
             return ((0, 0), 0.);
         }
 
@@ -87,11 +87,6 @@ impl Camera for Pinhole {
         }
         let z = intersection_pt * self.view.view_up;
 
-        // If it is out of the FOV, return None.
-        if z.abs() > 1. || x.abs() > 1. {
-            return ((0, 0), 0.);
-        }
-
         let (width, height) = self.film.resolution;
         let xlim = 2.;
         let aspect_ratio = height as Float / width as Float;
@@ -99,12 +94,19 @@ impl Camera for Pinhole {
         let dx = xlim / width as Float;
         let dy = ylim / height as Float;
 
+        // If it is out of the FOV, return None.
+        if z.abs() > ylim / 2. || x.abs() > xlim / 2. {
+            return ((0, 0), 0.);
+        }
+
         // Else, calculate:
-        let x = (x + 1.) / dx;
-        let y = (1. - z) / dy;
+        let x = (x + xlim / 2.) / dx;
+        let y = (ylim / 2. - z) / dy;
 
-        // return
-        ((x.floor() as usize, y.floor() as usize), 1.)
+        // return (the borders of the film belong to the last row and column)
+        let x = (x.floor() as usize).min(width - 1);
+        let y = (y.floor() as usize).min(height - 1);
+        ((x, y), 1.)
     }
 
     /// Generates a ray that will go through the View Point and a
-- 
2.43.0


From 4e327ec000b97334b187004b1c2068d12d58427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 47/51] fix: matrix files with fewer rows than announced are
 refused

---
 rendering/src/colour_matrix.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rendering/src/colour_matrix.rs b/rendering/src/colour_matrix.rs
index 03f34f7..365c881 100644
--- a/rendering/src/colour_matrix.rs
+++ b/rendering/src/colour_matrix.rs
@@ -212,6 +212,7 @@ pub fn read_colour_matrix(filename: &Path) -> Result<ColourMatrix, String> {
     let mut matrix = ColourMatrix::new(Spectrum::BLACK, nrows, ncols);
 
     // Read content.
+    let mut n_rows_read = 0;
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
         let values: Vec<&str> = line.split_ascii_whitespace().collect();
@@ -257,6 +258,13 @@ pub fn read_colour_matrix(filename: &Path) -> Result<ColourMatrix, String> {
 
             ncol += 1;
         }
+        n_rows_read += 1;
+    }
+    if n_rows_read != nrows {
+        return Err(format!(
+            "Expecting {} rows in file '{}'... found {}",
+            nrows, filename, n_rows_read
+        ));
     }
 
     // return
@@ -371,6 +379,7 @@ pub fn read_matrix(filename: &Path) -> Result<Matrix, String> {
     let mut matrix = Matrix::new(0.0, nrows, ncols);
 
     // Read content.
+    let mut n_rows_read = 0;
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
         let values: Vec<&str> = line.split_ascii_whitespace().collect();
@@ -397,6 +406,13 @@ pub fn read_matrix(filename: &Path) -> Result<Matrix, String> {
 
             ncol += 1;
         }
+        n_rows_read += 1;
+    }
+    if n_rows_read != nrows {
+        return Err(format!(
+            "Expecting {} rows in file '{}'... found {}",
+            nrows, filename, n_rows_read
+        ));
     }
 
     // return
-- 
2.43.0


From 60cfa53c6645aab63c35f7dde8f84baee0ffc3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 48/51] fix: colour maps do not panic for values that rounding
 leaves above the last bin

---
 rendering/src/colourmap/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rendering/src/colourmap/mod.rs b/rendering/src/colourmap/mod.rs
index 9404654..5abe047 100644
--- a/rendering/src/colourmap/mod.rs
+++ b/rendering/src/colourmap/mod.rs
@@ -93,7 +93,8 @@ fn map_linear_colour(
             return [r, g, b];
         }
     }
-    unreachable!()
+    // Rounding can leave the end of the last bin just below a value that is smaller than max
+    map[map.len() - 1]
 }
 
 #[cfg(test)]
-- 
2.43.0


From 36ab826f8879f8e715a38f7b4ae5dd7f019026c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:04 +0000
Subject: [PATCH 49/51] fix: image files whose size is not that of their pixels
 are refused

---
 rendering/src/image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 50fdf10..77b841c 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -272,6 +272,16 @@ impl ImageBuffer {
         let height = height.ok_or("no height")?;
 
         // Read body
+        let n_bytes = width.checked_mul(height).and_then(|n| n.checked_mul(4));
+        if n_bytes != Some(content.len()) {
+            return Err(format!(
+                "When reading file '{}' : Expecting {}x{} pixels of 4 bytes each... found {} bytes",
+                filename,
+                width,
+                height,
+                content.len()
+            ));
+        }
         let pixels = content
             .chunks_exact(4)
             .map(|x| {
-- 
2.43.0


From 2dcc0215f81f1a105aa046ebebcd78b2958d8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:04 +0000
Subject: [PATCH 50/51] fix: the automatic maximum of a logarithmic false
 colour image is logarithmic

---
 rendering/src/image.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 77b841c..f3ade6a 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -319,14 +319,15 @@ impl ImageBuffer {
         let log_max = match max {
             Some(v) => v.log10(),
             None => {
-                let mut m = MIN_MIN;
+                // in log10, just as the luminance
+                let mut m = MIN_MIN.log10();
                 log_luminance.iter().for_each(|v| {
                     if *v > m {
                         m = *v
                     }
                 });
-                if m <= MIN_MIN {
-                    m = 2. * MIN_MIN;
+                if m <= MIN_MIN.log10() {
+                    m = (2. * MIN_MIN).log10();
                 }
                 m
             }
-- 
2.43.0


From 4e672a8513d96da58b7b59b346ccc104e8afe90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 51/51] fix: light that a dielectric reflects keeps its
 refraction index

---
 rendering/src/material/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rendering/src/material/mod.rs b/rendering/src/material/mod.rs
index 759b9cd..cad53bf 100644
--- a/rendering/src/material/mod.rs
+++ b/rendering/src/material/mod.rs
@@ -162,12 +162,15 @@ impl Material {
                 let ret = m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags);
                 // if front or back?
                 // dbg!("Fxix the refraction index transition");
-                match interaction.geometry_shading.side {
-                    // Going in
-                    SurfaceSide::Front => *eta = m.refraction_index,
-                    // Going out... TODO?: create a stack of refraction indexes
-                    SurfaceSide::Back => *eta = 1.0,
-                    _ => unreachable!(),
+                // ... light that is reflected stays where it was.
+                if matches!(&ret, Some(sample) if sample.is_transmission()) {
+                    match interaction.geometry_shading.side {
+                        // Going in
+                        SurfaceSide::Front => *eta = m.refraction_index,
+                        // Going out... TODO?: create a stack of refraction indexes
+                        SurfaceSide::Back => *eta = 1.0,
+                        _ => unreachable!(),
+                    }
                 }
                 ret
             }
-- 
2.43.0

