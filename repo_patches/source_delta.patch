From 8f51aeb042522c03da13b4a4bfd24594f0a66da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:16 +0000
Subject: [PATCH 01/40] fix: reject date text that does not have exactly three
 components

Parsing "2018" or "2018-05" indexed past the end of the split text and
panicked. Text with a fourth component was accepted and the rest ignored.
A very long year overflowed the julian date arithmetic.
---
 src/dates/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 1447c0a..6ef4bff 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -106,12 +106,16 @@ impl FromStr for Date {
         // which would allow me to parse the string without any heap
         // access or intermediate objects.
         let ymd: Vec<&str> = s.split("-").collect();
+        if ymd.len() != 3 {
+            return Err(qm::Error::new(s))
+        }
 
         let mut array: [i32; 3] = [0; 3];
         for (i, elem) in array.iter_mut().enumerate() {
             *elem = match ymd[i].parse::<i32>() {
-                Ok(number) => number,
-                Err(_e) => return Err(qm::Error::new(s))
+                // more than four digits would overflow the julian date
+                Ok(number) if number <= 9999 => number,
+                _ => return Err(qm::Error::new(s))
             };
         }
 
-- 
2.43.0


From 81f4c7c87fe10cb64a8699231af6e991d558a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:56 +0000
Subject: [PATCH 02/40] fix: round fractional steps on volatility calendars
 with no holiday weight

A volatility calendar steps to the nearest day. With a zero holiday weight
the fractional step was truncated towards zero instead of rounded.
---
 src/dates/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dates/calendar.rs b/src/dates/calendar.rs
index cf98ac1..974df38 100644
--- a/src/dates/calendar.rs
+++ b/src/dates/calendar.rs
@@ -550,7 +550,7 @@ impl Calendar for VolatilityCalendar {
 
         // Optimisation if the holiday weight is zero
         if self.holiday_weight < 1e-12 {
-            return self.calendar.step(from, step as i32, slip_forward)
+            return self.calendar.step_partial(from, step, slip_forward)
         }
  
         assert!(step == 0.0 || slip_forward == (step > 0.0)); 
-- 
2.43.0


From e3b0e8f78a6afccd83991cee43aeafb2e71e6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:42 +0000
Subject: [PATCH 03/40] fix: leave the fixing table unchanged when a duplicate
 curve is rejected

FixingTable::insert replaced the existing curve and only then reported
the duplicate, so a caller who handled the error was left with the
wrong fixings.
---
 src/data/fixings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index b39a259..e24ced8 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -55,9 +55,10 @@ impl FixingTable {
     /// Adds a fixings curve
     pub fn insert(&mut self, id: &str, fixings: Fixings) 
         -> Result<(), qm::Error> {
-        if let Some(_) = self.fixings_by_id.insert(id.to_string(), fixings) {
+        if self.fixings_by_id.contains_key(id) {
             return Err(duplicate_fixing_curve(id))
         }
+        self.fixings_by_id.insert(id.to_string(), fixings);
         Ok(())
     }
 
-- 
2.43.0


From 3ad9aa6519ee73c174e4015fb688bf906749f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:43 +0000
Subject: [PATCH 04/40] fix: reject serialized fixings that name the same
 moment twice

Fixings::new already treats this as an error. Deserialization silently
kept the last value.
---
 src/data/fixings.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/fixings.rs b/src/data/fixings.rs
index e24ced8..287d37a 100644
--- a/src/data/fixings.rs
+++ b/src/data/fixings.rs
@@ -166,7 +166,7 @@ pub struct Fixings {
 mod map_as_pairs {
     use std::fmt;
     use serde::ser::Serializer;
-    use serde::de::{Deserializer, Visitor, SeqAccess};
+    use serde::de::{Deserializer, Error, Visitor, SeqAccess};
     use std::collections::HashMap;
     use dates::datetime::DateTime;
 
@@ -198,7 +198,9 @@ mod map_as_pairs {
                 loop {
                     let next : Option<(DateTime, f64)> = seq.next_element()?;
                     if let Some((k, v)) = next {
-                        map.insert(k, v);
+                        if map.insert(k, v).is_some() {
+                            return Err(Error::custom(format!("Duplicate fixing at {}", k)))
+                        }
                     } else {
                         break;
                     }
-- 
2.43.0


From e62ab1431ddefb95bf4fa687e5b4163cf9ff782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:25 +0000
Subject: [PATCH 05/40] fix: use the right-hand rule when extrapolating to the
 right

Both the linear and the cubic spline interpolator looked at the left-hand
rule to decide whether to extrapolate naturally to the right.
---
 src/math/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index aca5724..7f4bb38 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -145,7 +145,7 @@ pub fn linear_interpolate_extrapolate<T : Interpolable<T> + Copy>(
                 left.extrapolate(points[0].1)
             }
         } else if i >= points.len() {
-            if left.is_natural() && n > 1 {
+            if right.is_natural() && n > 1 {
                 linear_interpolate(points[n-2], points[n-1], x)
             } else {
                 right.extrapolate(points[n-1].1)
@@ -296,7 +296,7 @@ impl<T : Interpolable<T> + Copy> Interpolate<T> for CubicSpline<T> {
                     self.inputs.left.extrapolate(self.inputs.points[0].1)
                 }
             } else if i >= n {
-                if self.inputs.left.is_natural() && n > 1 {
+                if self.inputs.right.is_natural() && n > 1 {
                     nr_splint(self.inputs.points[n-2], self.inputs.points[n-1],
                         self.second_deriv[n-2], self.second_deriv[n-1], x)
                 } else {
-- 
2.43.0


From c44bdeaef23f71152882b71ee3ae78b6e3746dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:25 +0000
Subject: [PATCH 06/40] fix: return an error for a cubic spline with fewer than
 two points

The constructor used to panic on an assertion in this case.
---
 src/math/interpolation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 7f4bb38..c6176b5 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -320,6 +320,10 @@ impl<T : Interpolable<T> + Copy> CubicSpline<T> {
         -> Result<CubicSpline<T>, qm::Error> {
 
         validate_abscissae(&points)?;
+        if points.len() < 2 {
+            return Err(qm::Error::new("Cubic spline interpolator requires \
+                at least 2 points"))
+        }
 
         let mut second_deriv = vec![0.0; points.len()];
         let deriv_0 = if left.is_natural() { INFINITY } else { 0.0 };
-- 
2.43.0


From ed0d37e443a57df0ed613a76ae3da3ee36ec53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:26 +0000
Subject: [PATCH 07/40] fix: validate interpolation points when reading them
 from JSON

The constructors reject unordered, duplicated or missing abscissae, but
deserialization bypassed them, giving wrong interpolated values.
---
 src/math/interpolation.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index c6176b5..b32f68f 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -6,6 +6,7 @@ use serde::Deserialize;
 use serde::Deserializer;
 use serde::Serialize;
 use serde::Serializer;
+use serde::de::Error;
 use core::qm;
 
 /// To use interpolation, the types along the x axis must be Interpolable
@@ -220,7 +221,7 @@ impl<T : Interpolable<T> + Copy> FlyweightInterpolate<T>
 
 /// Non-flyweight linear interpolation. In this interpolator, the data is
 /// kept internally, and passed into the constructor.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize)]
 pub struct Linear<T> where T : Interpolable<T> {
     left: Extrap,
     right: Extrap,
@@ -246,6 +247,24 @@ impl<T : Interpolable<T> + Copy> Linear<T> {
     }
 }
 
+// Deserialize via the constructor, so that the points are validated.
+impl<'de, T> Deserialize<'de> for Linear<T>
+where T : Interpolable<T> + Deserialize<'de> + Copy {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where D: Deserializer<'de> {
+        #[derive(Deserialize)]
+        struct LinearInputs<T> {
+            left: Extrap,
+            right: Extrap,
+            points: Vec<(T, f64)>
+        }
+
+        let inputs = LinearInputs::deserialize(deserializer)?;
+        Linear::new(&inputs.points, inputs.left, inputs.right)
+            .map_err(Error::custom)
+    }
+}
+
 /// Cubic spline interpolation is continuous up to the second derivative.
 /// It builds sections of cubic curves, based on matching first derivatives
 /// at the pillar points. It is therefore generally smoother than a simple
@@ -350,14 +369,8 @@ where T : Interpolable<T> + Deserialize<'de> + Copy {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where D: Deserializer<'de> {
         let inputs = CubicSplineInputs::deserialize(deserializer)?;
-
-        let mut second_deriv = vec![0.0; inputs.points.len()];
-        let deriv_0 = if inputs.left.is_natural() { INFINITY } else { 0.0 };
-        let deriv_n = if inputs.right.is_natural() { INFINITY } else { 0.0 };
-
-        nr_spline(&inputs.points, deriv_0, deriv_n, &mut second_deriv);
-
-        Ok(CubicSpline { inputs, second_deriv })
+        CubicSpline::new(&inputs.points, inputs.left, inputs.right)
+            .map_err(Error::custom)
     }
 }
 
-- 
2.43.0


From 287d173a83028e28c11ca3301b48167073e3d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:01 +0000
Subject: [PATCH 08/40] fix: back-substitute the first second derivative of a
 cubic spline

The loop stopped one short, so a spline clamped on the left used -0.5 as
the second derivative at its first point and was discontinuous in slope.
---
 src/math/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index b32f68f..34bc38e 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -421,7 +421,7 @@ fn nr_spline<T : Interpolable<T> + Copy>(
 
     // the backsubstitution loop of the tridiagonal algorithm
     y2[n-1] = (un - qn * u[n-2]) / (qn * y2[n-2] + 1.0);
-    for i in (1..n-1).rev() {
+    for i in (0..n-1).rev() {
         y2[i] = y2[i] * y2[i+1] + u[i];
     }
 }
-- 
2.43.0


From 1dea7bb6586c7cecab91df32f684fe35f3aabbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:35 +0000
Subject: [PATCH 09/40] fix: let a bump of a zero rate curve take effect

ZeroRateCurve reported a time of zero for every date, so the log discount
of a bumped zero curve stayed zero whatever the bump.
---
 src/data/curves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 4f08c6c..3a504d7 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -98,8 +98,9 @@ impl TypeId for ZeroRateCurve {
 }
 
 impl RateCurve for ZeroRateCurve {
-    fn r_and_t(&self, _date: Date) -> Result<(f64, f64), qm::Error> { 
-        Ok((0.0, 0.0)) 
+    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> { 
+        // the time matters if the curve is bumped
+        Ok((0.0, (date - self.base) as f64 / 365.0)) 
     }
     fn base_date(&self) -> Date { self.base }
     fn is_zero(&self) -> bool { true }
-- 
2.43.0


From c618eb82b7e22e50671d45ee6496adfc5f28b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:24 +0000
Subject: [PATCH 10/40] fix: compute the cash dividends remaining after a date

The remaining cash was calculated from the NaN it was initialised with,
and a date between two ex dates left out the dividend at the later one.
---
 src/data/divstream.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index f1a45c8..7ab97ac 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -288,7 +288,7 @@ impl DividendBootstrap {
                 discounted_cash;
             for acc in accumulation.iter_mut().rev() {
                 acc.discounted_cash_remaining = 
-                    final_discounted_cash - acc.discounted_cash_remaining;
+                    final_discounted_cash - acc.discounted_cash;
             }
         }
 
@@ -403,13 +403,15 @@ impl DividendBootstrap {
             // if we found it, return the remaining cash at this div
             Ok(i) => Ok(self.accumulation[i].discounted_cash_remaining),
 
-            // If we missed and it was after the last date, return zero.
-            // This also catches the case where there are no dividends
-            Err(i) => if i == self.accumulation.len() { Ok(0.0) } else {
+            // If there are no dividends, there is nothing remaining
+            Err(_) if self.accumulation.is_empty() => Ok(0.0),
 
-                // otherwise, return the remaining cash at the next div
-                Ok(self.accumulation[i].discounted_cash_remaining)
-            }
+            // If we missed and it was before the base date, everything
+            // from the base date on is remaining
+            Err(0) => Ok(self.accumulation[0].discounted_cash_remaining),
+
+            // otherwise, return the remaining cash at the previous div
+            Err(i) => Ok(self.accumulation[i-1].discounted_cash_remaining)
         }
     }
 }
-- 
2.43.0


From c40cdda1408c43765071a7886e2b4bdf94034e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:24 +0000
Subject: [PATCH 11/40] fix: leave out dividends that go ex on the base date

The amounts are documented as counted from, and not including, the base
date. A dividend on that date was counted if another one followed it, so
that the forward on the base date differed from spot.
---
 src/data/divstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index 7ab97ac..d2fba2a 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -228,8 +228,8 @@ impl DividendBootstrap {
 
         for dividend in div_stream.dividends.iter() {
             let ex_date = dividend.ex_date;
-            if ex_date < base_date {
-                // quietly ignore dividends before the base date
+            if ex_date <= base_date {
+                // quietly ignore dividends on or before the base date
                 continue;
             } else if ex_date < prev_ex_date {
                 return Err(qm::Error::new("Dividends not in ex date order"))
-- 
2.43.0


From c329ce404e5076b7d24fa137dc29b94d408ef362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:24 +0000
Subject: [PATCH 12/40] fix: scale the dividend yield by one plus the bump

Bumping all dividends by ten percent left only a tenth of the dividend
yield, because RelativeBump takes the factor to multiply by.
---
 src/data/divstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/divstream.rs b/src/data/divstream.rs
index d2fba2a..e2fcb4d 100644
--- a/src/data/divstream.rs
+++ b/src/data/divstream.rs
@@ -113,7 +113,7 @@ impl DividendStream {
            div.bump_all_relative(one_plus_bump);
         }
 
-        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), bump))); 
+        let bumped_yield = RcRateCurve::new(Arc::new(RelativeBump::new(divs.div_yield(), one_plus_bump))); 
 
         DividendStream {
             dividends: bumped_divs,
-- 
2.43.0


From e7f4c9d10b17c6f7b717d45e20d40af7c5c78c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:24 +0000
Subject: [PATCH 13/40] fix: a relative bump of a zero rate curve is still zero

Otherwise bumping the dividends of an equity with no dividend yield can
fail with the error that the yield overlaps the dividends.
---
 src/data/curves.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/curves.rs b/src/data/curves.rs
index 3a504d7..c651cd0 100644
--- a/src/data/curves.rs
+++ b/src/data/curves.rs
@@ -273,6 +273,10 @@ impl RateCurve for RelativeBump {
     fn base_date(&self) -> Date {
         self.curve.base_date()
     }
+
+    fn is_zero(&self) -> bool {
+        self.curve.is_zero()
+    }
 }
 
 impl RelativeBump {
-- 
2.43.0


From 6450b78d9e35aad504d58a54d88f76fbe28db5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:03 +0000
Subject: [PATCH 14/40] fix: price an at-the-money option with zero variance

Dividing a zero log moneyness by a zero standard deviation gave NaN.
---
 src/math/optionpricing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/optionpricing.rs b/src/math/optionpricing.rs
index f1e64c8..b355527 100644
--- a/src/math/optionpricing.rs
+++ b/src/math/optionpricing.rs
@@ -47,6 +47,11 @@ impl Black76 {
 /// Calculates the internal d_plus and d_minus values needed for many of the
 /// Black Scholes formulae.
 fn d_plus_minus(log_moneyness: f64, sqrt_variance: f64) -> (f64, f64) {
+    // at the money with no variance, avoid dividing zero by zero
+    if log_moneyness == 0.0 && sqrt_variance == 0.0 {
+        return (0.0, 0.0)
+    }
+
     let d_plus = log_moneyness / sqrt_variance + 0.5 * sqrt_variance;
     let d_minus = d_plus - sqrt_variance;
     (d_plus, d_minus)
-- 
2.43.0


From ef75eb0401c160b9740e4b8bd11fa7b74304ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:18 +0000
Subject: [PATCH 15/40] fix: measure the at the forward variance of a forward
 start at both of its dates

---
 src/data/volsurface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 48b2ced..df71b04 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -141,8 +141,8 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             // at the from and to dates
             let from_forward = forward.interpolate(from.date())?;
             let to_forward = forward.interpolate(to.date())?;
-            let from_var = self.variance(from, to_forward)?;
-            let to_var = self.variance(from, from_forward)?;
+            let from_var = self.variance(from, from_forward)?;
+            let to_var = self.variance(to, to_forward)?;
             let fwd_atm_var = to_var - from_var;
             if fwd_atm_var < 0.0 {
                 return Err(qm::Error::new("Negative atm forward variance"))
-- 
2.43.0


From 6ca8118f26f262d062c71ffa6c202682a73801cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:01 +0000
Subject: [PATCH 16/40] fix: vols at and before the base date, and between
 pillars with no vol time, are not NaN

---
 src/data/volsurface.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index df71b04..2143b1c 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -673,7 +673,14 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
         // sqrt(vol_time) as a substitute for atm_variance, effectively
         // pretending vol is one.
         let forward = self.input.forward.interpolate(date_time.date())?;
-        let normalised = to_normalised(strikes, forward, vol_time.sqrt());
+
+        // At or before the base date there is no variance, which makes
+        // normalised strikes meaningless. Use the at the money vol.
+        let normalised = if vol_time > 0.0 {
+            to_normalised(strikes, forward, vol_time.sqrt())
+        } else {
+            vec!(0.0; strikes.len())
+        };
 
         // It is not very efficient using two local vectors. Consider
         // refactoring to use one local vector, or even passing workspace
@@ -707,7 +714,11 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
         // calculate how far through this period we are in vol time
         let left_time = self.pillar_vol_times[left];
         let right_time = self.pillar_vol_times[right];
-        let fraction = (vol_time - left_time) / (right_time - left_time);
+        let fraction = if right_time > left_time {
+            (vol_time - left_time) / (right_time - left_time)
+        } else {
+            0.0
+        };
 
         // Consider refactoring this to use fewer temporary vectors, or even
         // passing in a workspace.
-- 
2.43.0


From 8ca6d69e36f12efbde91e24b696aa61bec1148b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:05 +0000
Subject: [PATCH 17/40] fix: pillar vol surfaces read from JSON keep their
 type, for flat smiles as well

---
 src/data/volsurface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 2143b1c..53df423 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -250,6 +250,7 @@ pub fn get_registry() -> &'static TypeRegistry {
         static ref REG: TypeRegistry = {
             let mut reg = TypeRegistry::new();
             reg.insert("FlatVolSurface", BoxFnSeed::new(FlatVolSurface::from_serial));
+            reg.insert("VolByProbabilityFlatSmile", BoxFnSeed::new(VolByProbabilityFlatSmile::from_serial));
             reg.insert("VolByProbabilityCubicSplineSmile", BoxFnSeed::new(VolByProbabilityCubicSplineSmile::from_serial));
             reg.insert("ConstantExpiryTimeEvolution", BoxFnSeed::new(ConstantExpiryTimeEvolution::from_serial));
             reg.insert("RollingExpiryTimeEvolution", BoxFnSeed::new(RollingExpiryTimeEvolution::from_serial));
@@ -811,7 +812,7 @@ impl VolByProbabilityFlatSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<FlatSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityFlatSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
@@ -865,7 +866,7 @@ impl VolByProbabilityCubicSplineSmile {
     pub fn from_serial<'de>(de: &mut esd::Deserializer<'de>) -> Result<RcVolSurface, esd::Error> {
         let input = VolByProbabilityInput::<CubicSplineSmile>::deserialize(de)?;
         match VolByProbability::new(input) {
-            Ok(surface) => Ok(Qrc::new(Arc::new(surface))),
+            Ok(surface) => Ok(Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile(surface)))),
             Err(e) => Err(esd::Error::custom(e.description()))
         }
     }
-- 
2.43.0


From 28c8fbf495e58ab35122b76ee4caf62f19179dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:49 +0000
Subject: [PATCH 18/40] fix: vols between a pillar on the base date and the
 next are numbers before vol time passes

---
 src/data/volsurface.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 53df423..a42edc9 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -712,6 +712,11 @@ impl<T: VolSmile + Clone> VolByProbability<T> {
             return Ok(vol_time)    // early exit for efficiency
         }
 
+        // if no vol time has passed, there is nothing to interpolate
+        if vol_time <= 0.0 {
+            return self.extrapolate(left, date_time, strikes, out)
+        }
+
         // calculate how far through this period we are in vol time
         let left_time = self.pillar_vol_times[left];
         let right_time = self.pillar_vol_times[right];
-- 
2.43.0


From 6e640c0d6dea1875fad4d5f35cbdabe0bdf42974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:58 +0000
Subject: [PATCH 19/40] fix: reject text naming a day that does not exist

"2018-02-30" was read as the second of March.
---
 src/dates/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index 6ef4bff..f5b37c4 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -122,7 +122,7 @@ impl FromStr for Date {
         // this call does no validation, so we check the resulting date
         // before returning it
         let result = Date::from_ymd(array[0], array[1], array[2]);
-        if !result.is_valid() {
+        if !result.is_valid() || result.ymd() != (array[0], array[1], array[2]) {
             return Err(qm::Error::new(s))
         }
 
-- 
2.43.0


From bfc429690d06618ef38f8cf2e99eb5460da1c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:23 +0000
Subject: [PATCH 20/40] fix: displace the strike of an option in the same
 direction as its forward

---
 src/instruments/options.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 449b0e9..7e0b702 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -114,7 +114,7 @@ impl VanillaOption {
         // For some div assumptions, we must displace the forward and strike.
         // (This errors for JumpDivs, which we do not currently handle.)
         let displacement = vol.displacement(self.expiry.date())?;
-        let k = strike + displacement;
+        let k = strike - displacement;
         let f = forward - displacement;
         if f < 0.0 {
             return Err(qm::Error::new("Negative forward"));
@@ -145,7 +145,12 @@ impl VanillaOption {
                 // between now and the val date. Whether this is the right thing to
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
+                //
+                // If the strike is below the displacement, the underlying never falls
+                // as far as the strike.
                 let price = match self.put_or_call {
+                    PutOrCall::Put if k < 0.0 => 0.0,
+                    PutOrCall::Call if k < 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From 812c27ab683eed4a2d375161e38d38ab24a19472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:32 +0000
Subject: [PATCH 21/40] fix: list each forward once under the curve it depends
 on

---
 src/risk/dependencies.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 12719a4..1727013 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -151,7 +151,9 @@ impl DependencyContext for DependencyCollector {
             // this brace to avoid multiple mutable borrow
             let forward_ids = self.forward_id_from_credit_id.entry(
                 credit_id.to_string()).or_insert(Vec::<String>::new());
-            forward_ids.push(instrument.id().to_string());
+            if !forward_ids.iter().any(|id| id == instrument.id()) {
+                forward_ids.push(instrument.id().to_string());
+            }
         }
 
         // and add a dependency on this spot (this adds the instrument)
-- 
2.43.0


From 22e89fa2d479f063a926adc1972b881c620d118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:37 +0000
Subject: [PATCH 22/40] fix: list each fixing an instrument depends on once

---
 src/risk/dependencies.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/risk/dependencies.rs b/src/risk/dependencies.rs
index 1727013..7a51c5c 100644
--- a/src/risk/dependencies.rs
+++ b/src/risk/dependencies.rs
@@ -167,8 +167,10 @@ impl DependencyContext for DependencyCollector {
     }
 
     fn fixing(&mut self, id: &str, date: DateTime) {
-        self.fixings.entry(id.to_string()).or_insert(Vec::new())
-            .push(date)
+        let dates = self.fixings.entry(id.to_string()).or_insert(Vec::new());
+        if !dates.contains(&date) {
+            dates.push(date)
+        }
     }
 
 }
-- 
2.43.0


From caea2a58f8157975b02c11edbe07355fb1a35579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:41 +0000
Subject: [PATCH 23/40] fix: bumping market data that was not prefetched is not
 an error

---
 src/risk/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index c9625c8..7ad002a 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -129,10 +129,9 @@ impl PricingContextPrefetch {
             } else {
                 return Err(qm::Error::new("Cannot find instrument"))
             }
-        } else {
-            return Err(qm::Error::new("Cannot find prefetched forward"))
         }
 
+        // if nothing was prefetched for this id, there is nothing to refetch
         Ok(true)
     }
 }
-- 
2.43.0


From 22f61b4993e81f97d04e2611f7a6c6d81e23f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:09 +0000
Subject: [PATCH 24/40] fix: a save area keeps what was there before the first
 bump saved into it

---
 src/models/blackdiffusion.rs | 2 +-
 src/risk/cache.rs            | 4 ++--
 src/risk/marketdata.rs       | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 352e041..49b06f4 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -216,7 +216,7 @@ impl BlackDiffusion {
             // save the old path then replace it
             let path = self.paths.subview_mut(Axis(2), *asset);
             if let Some(s) = saved_paths {
-                s.insert(*asset, path.to_owned());
+                s.entry(*asset).or_insert(path.to_owned());
             }
             fetch_path(self.instruments[*asset].deref(), 
                 self.context.as_pricing_context(), &self.observations,
diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index 7ad002a..7c71142 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -90,7 +90,7 @@ impl PricingContextPrefetch {
                 // save the old forward if we are about to bump it
                 if bumped_forward {
                     if let Some(s) = saved_forward_curves {
-                        s.insert(id.to_string(), fwd.clone());
+                        s.entry(id.to_string()).or_insert(fwd.clone());
                     }
 
                     // Refetch forward: requires instrument and high water mark
@@ -111,7 +111,7 @@ impl PricingContextPrefetch {
                 if bumped_vol {
                     if let Some(vol) = self.vol_surfaces.get_mut(&id_string) {
                         if let Some(s) = saved_vol_surfaces {
-                            s.insert(id_string, vol.clone());
+                            s.entry(id_string).or_insert(vol.clone());
                         }
 
                         // Refetch vol if required. If vol not found, it may
diff --git a/src/risk/marketdata.rs b/src/risk/marketdata.rs
index 79dbffa..e6ae781 100644
--- a/src/risk/marketdata.rs
+++ b/src/risk/marketdata.rs
@@ -325,9 +325,10 @@ fn apply_bump<T: Clone>(id: &str, bump: &Bumper<T>,
     let key = id.to_string();
     if let Some(entry) = to_bump.get_mut(&key) {
 
-        // save the old value if there is anywhere to save it
+        // save the old value if there is anywhere to save it, keeping the
+        // value from before the first bump if there are more than one
         if let Some(save) = to_save {
-            save.insert(key, entry.clone());
+            save.entry(key).or_insert(entry.clone());
         }
 
         // update the new value and return true to say we changed it
-- 
2.43.0


From ee51b308cfda55894af7674175bd364175e45be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:14 +0000
Subject: [PATCH 25/40] fix: bumping market data that no path depends on is not
 an error

---
 src/models/blackdiffusion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/blackdiffusion.rs b/src/models/blackdiffusion.rs
index 49b06f4..c4fcf72 100644
--- a/src/models/blackdiffusion.rs
+++ b/src/models/blackdiffusion.rs
@@ -224,10 +224,9 @@ impl BlackDiffusion {
                 &self.substepping,
                 path)?;
 
-        } else {
-            return Err(qm::Error::new("Failed to find asset"))
-        }        
+        }
 
+        // if there is no path for this id, there is nothing to refetch
         Ok(true)
     }
 
-- 
2.43.0


From 9cf9b0e05eee9f124a2a90c23e62d133d71d3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:17 +0000
Subject: [PATCH 26/40] fix: options whose strike is never crossed do not look
 it up on the vol surface

---
 src/instruments/options.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 7e0b702..cc5a63f 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -134,7 +134,11 @@ impl VanillaOption {
 
                 let val_date = self.underlying.time_to_day_fraction(*date)?;
                 let from_date = vol_from.max(val_date);
-                let variance = vol.forward_variance(from_date, self.expiry_time, strike)?;
+                let variance = if k > 0.0 {
+                    vol.forward_variance(from_date, self.expiry_time, strike)?
+                } else {
+                    0.0     // the strike is never crossed, and may be off the surface
+                };
                 if variance < 0.0 {
                     return Err(qm::Error::new("Negative variance"));
                 }
-- 
2.43.0


From 5f2d20145403bb8b7a4a97a47b38144055b0d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:15 +0000
Subject: [PATCH 27/40] fix: fix the underlying that a physically settled
 option delivers

When an option and the basket it delivers fixed in the same pass, the
basket was handed over unfixed, and the holdings differed from those of
fixing the option first and the basket afterwards.
---
 src/instruments/options.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index cc5a63f..3188484 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 use std::f64::NAN;
 use instruments::Instrument;
+use instruments::fix_all;
 use instruments::RcInstrument;
 use instruments::Priceable;
 use instruments::PricingContext;
@@ -392,7 +393,9 @@ impl Instrument for SpotStartingEuropean {
                 }
             }
 
-            Ok(Some(decomp))
+            // the underlying that is delivered may itself have fixed
+            let further = fix_all(&decomp, fixing_table)?;
+            Ok(further.or(Some(decomp)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 85a74107cd97c1b7b5e060b02ea7b3690dd67bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:01 +0000
Subject: [PATCH 28/40] fix: leave a deduplication scope when the code run
 inside it panics

The mode and objects of the scope stayed in force on the thread, so that
later reads and writes were done in the wrong mode.
---
 src/core/dedup.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/dedup.rs b/src/core/dedup.rs
index a58692a..73f9b66 100644
--- a/src/core/dedup.rs
+++ b/src/core/dedup.rs
@@ -6,6 +6,7 @@ use std::fmt::Debug;
 use std::ops::Deref;
 use std::thread::LocalKey;
 use std::mem::swap;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::marker::PhantomData;
 use std::marker::Sized;
 use serde as sd;
@@ -46,16 +47,19 @@ where
             swap(&mut *s.borrow_mut(), self);
         });
 
-        let result = f();
+        let result = catch_unwind(AssertUnwindSafe(f));
 
         // by swapping in and out of our own member variables, we save the state of the
         // thread-local variable, as well as providing our own state to the serialize
-        // functions
+        // functions. We do this even if the closure panics.
         tls_seed.with(|s| {
             swap(&mut *s.borrow_mut(), self);
         });
 
-        result
+        match result {
+            Ok(result) => result,
+            Err(panic) => resume_unwind(panic)
+        }
     }
 
     pub fn control(&self) -> &DedupControl { &self.control }
-- 
2.43.0


From d522c56b9e62ecf26678f84fa2d8e41ff7f65c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:30 +0000
Subject: [PATCH 29/40] fix: accept equal numbers when no difference is
 tolerated

The tolerance is documented as the largest acceptable difference, but a
report compared with itself under a tolerance of zero was a mismatch.
---
 src/math/numerics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/numerics.rs b/src/math/numerics.rs
index c59d3fe..0ef697c 100644
--- a/src/math/numerics.rs
+++ b/src/math/numerics.rs
@@ -4,7 +4,7 @@ use std::fmt;
 /// Compares two floating point numbers for equality, with margin for error
 pub fn approx_eq(first: f64, second: f64, tolerance: f64) -> bool {
     let diff = first - second;
-    diff.abs() < tolerance
+    diff.abs() <= tolerance
 }
 
 /// Are two objects approximately equal? The two objects could be floating
-- 
2.43.0


From 779d4aa5887c50fe883908213ee8097a4fad9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:35 +0000
Subject: [PATCH 30/40] fix: compare reports made with a negative bump

The tolerance of a delta or vega took the sign of the bump, so that equal
reports never compared equal when the bump was downwards.
---
 src/risk/deltagamma.rs | 4 ++--
 src/risk/vegavolga.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/risk/deltagamma.rs b/src/risk/deltagamma.rs
index 477dcc0..155bce9 100644
--- a/src/risk/deltagamma.rs
+++ b/src/risk/deltagamma.rs
@@ -56,8 +56,8 @@ impl<'v> ApproxEq<ReportTolerances, &'v DeltaGammaReport> for &'v DeltaGammaRepo
 
         // Both delta and gamma are based on diffs, so should use the unit_risk tolerance. Scale delta
         // by one over bumpsize, and gamma by one over bumpsize squared.
-        let delta = tol.unit_risk() / self.bumpsize;
-        let gamma = delta / self.bumpsize;
+        let delta = tol.unit_risk() / self.bumpsize.abs();
+        let gamma = delta / self.bumpsize.abs();
         let tolerances = DeltaGammaTolerances { delta, gamma };
         for (id, ref delta_gamma) in &self.results {
             if let Some(other_delta_gamma) = other.results.get(id) {
diff --git a/src/risk/vegavolga.rs b/src/risk/vegavolga.rs
index 0536725..6a9d4c4 100644
--- a/src/risk/vegavolga.rs
+++ b/src/risk/vegavolga.rs
@@ -63,8 +63,8 @@ impl<'v> ApproxEq<ReportTolerances, &'v VegaVolgaReport> for &'v VegaVolgaReport
         }
 
         // Both vega and volga are based on diffs, so should use the currency risk tolerance.
-        let vega = tol.currency_risk() / self.bumpsize;
-        let volga = vega / self.bumpsize;
+        let vega = tol.currency_risk() / self.bumpsize.abs();
+        let volga = vega / self.bumpsize.abs();
         let tolerances = VegaVolgaTolerances { vega, volga };
 
         for (id, ref vega_volga) in &self.results {
-- 
2.43.0


From 31f9595bec2d9c7823537c873cb38e79339c816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:41 +0000
Subject: [PATCH 31/40] fix: report a difference in bump size between two
 reports

Reports made with different bumps could compare equal one way round and
different the other, because only the bump of the first was looked at.
---
 src/risk/deltagamma.rs | 5 +++++
 src/risk/vegavolga.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/risk/deltagamma.rs b/src/risk/deltagamma.rs
index 155bce9..da9c209 100644
--- a/src/risk/deltagamma.rs
+++ b/src/risk/deltagamma.rs
@@ -54,6 +54,11 @@ impl<'v> ApproxEq<ReportTolerances, &'v DeltaGammaReport> for &'v DeltaGammaRepo
             write!(diffs, "DeltaGammaReport: number of reports {} != {}", self.results.len(), other.results.len())?;
         }
 
+        // the tolerances depend on the bump size, so it must be the same, to within rounding
+        if !approx_eq(self.bumpsize, other.bumpsize, 1e-12 * self.bumpsize.abs()) {
+            write!(diffs, "DeltaGammaReport: bumpsize {} != {}", self.bumpsize, other.bumpsize)?;
+        }
+
         // Both delta and gamma are based on diffs, so should use the unit_risk tolerance. Scale delta
         // by one over bumpsize, and gamma by one over bumpsize squared.
         let delta = tol.unit_risk() / self.bumpsize.abs();
diff --git a/src/risk/vegavolga.rs b/src/risk/vegavolga.rs
index 6a9d4c4..3b8058e 100644
--- a/src/risk/vegavolga.rs
+++ b/src/risk/vegavolga.rs
@@ -62,6 +62,11 @@ impl<'v> ApproxEq<ReportTolerances, &'v VegaVolgaReport> for &'v VegaVolgaReport
             write!(diffs, "VegaVolgaReport: number of reports {} != {}", self.results.len(), other.results.len())?;
         }
 
+        // the tolerances depend on the bump size, so it must be the same, to within rounding
+        if !approx_eq(self.bumpsize, other.bumpsize, 1e-12 * self.bumpsize.abs()) {
+            write!(diffs, "VegaVolgaReport: bumpsize {} != {}", self.bumpsize, other.bumpsize)?;
+        }
+
         // Both vega and volga are based on diffs, so should use the currency risk tolerance.
         let vega = tol.currency_risk() / self.bumpsize.abs();
         let volga = vega / self.bumpsize.abs();
-- 
2.43.0


From 33fa46f54069ba7f75a3b003388479aa2a4b147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:16 +0000
Subject: [PATCH 32/40] fix: do not write to stdout when cloning a handle

Cloning printed the address of the handle. A process whose standard output
is closed or full got an error handle instead of the clone.
---
 src/facade/handle.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/facade/handle.rs b/src/facade/handle.rs
index d2c4ff4..9880937 100644
--- a/src/facade/handle.rs
+++ b/src/facade/handle.rs
@@ -216,7 +216,6 @@ pub mod extern_handle {
     }
 
     pub fn clone_handle(handle: u64) -> u64 {
-        println!("clone_handle: {}", handle);
         // create a clone, which will be returned
         let cloned = Box::new(handle_from_ext(handle).clone());
 
-- 
2.43.0


From f319a643a3dadfa9e1389ca2c34df263212fd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:29 +0000
Subject: [PATCH 33/40] fix: refuse text after the end of a document

The facade read the first JSON value of its input and ignored the rest, so a
damaged or concatenated file was accepted without complaint.
---
 src/facade/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/facade/mod.rs b/src/facade/mod.rs
index 9303182..f3e278a 100644
--- a/src/facade/mod.rs
+++ b/src/facade/mod.rs
@@ -48,6 +48,7 @@ pub fn instrument_from_json(source: &mut Read,
     let instr = ccy.with(&DEDUP_CURRENCY, 
         || opt.with(&DEDUP_INSTRUMENT,
         || RcInstrument::deserialize(&mut deserializer)))?;
+    deserializer.end()?;
     Ok(instr)
 }
 
@@ -66,6 +67,7 @@ pub fn currency_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the currency
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let currency = RcCurrency::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(currency)
 }
 
@@ -78,6 +80,7 @@ pub fn pricer_factory_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the pricer factory
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let pricer_factory = RcPricerFactory::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(pricer_factory)
 }
 
@@ -89,6 +92,7 @@ pub fn fixing_table_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the pricer factory
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let fixing_table = RcFixingTable::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(fixing_table)
 }
 
@@ -102,6 +106,7 @@ pub fn market_data_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the pricer factory
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let market_data = RcMarketData::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(market_data)
 }
 
@@ -113,6 +118,7 @@ pub fn report_generator_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the pricer factory
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let report_generator = RcReportGenerator::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(report_generator)
 }
 
@@ -125,6 +131,7 @@ pub fn reports_from_json(source: &mut Read)
     // create a deserializer based on the input and use it to deserialize the pricer factory
     let mut deserializer = sdj::Deserializer::from_reader(source);
     let reports = Vec::<BoxReport>::deserialize(&mut deserializer)?;
+    deserializer.end()?;
     Ok(reports)
 }
 
-- 
2.43.0


From c9915a74574282d9da28bcad0f80aedae09109f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:42 +0000
Subject: [PATCH 34/40] fix: read back a nil date as written

A dividend stream without cash dividends keeps a nil date for the last of
them. It was written as 1968-05-23, which was then refused as out of range,
so market data with such a stream could be saved but not loaded.
---
 src/dates/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dates/mod.rs b/src/dates/mod.rs
index f5b37c4..99a048c 100644
--- a/src/dates/mod.rs
+++ b/src/dates/mod.rs
@@ -148,6 +148,13 @@ impl<'de> Deserialize<'de> for Date {
         // TODO try to find a way of deserializing that does not involve
         // unnecessarily constructing a string
         let s = String::deserialize(deserializer)?;
+
+        // a nil date is written like any other, and must be read back
+        let nil = Date::from_nil();
+        if s == nil.to_string() {
+            return Ok(nil)
+        }
+
         match Date::from_str(&s) {
             Ok(date) => Ok(date),
             Err(e) => Err(Error::custom(e.to_string()))
-- 
2.43.0


From d2b5b10f5b9c5f42fad1b616ca745333b49b27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:02 +0000
Subject: [PATCH 35/40] fix: show error messages that contain a nul

An error message quoting input with a nul in it could not be converted to a
C string. The caller got a message about the conversion instead of the error.
---
 src/facade/c_interface.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/facade/c_interface.rs b/src/facade/c_interface.rs
index 2501de8..1816851 100644
--- a/src/facade/c_interface.rs
+++ b/src/facade/c_interface.rs
@@ -262,7 +262,7 @@ pub extern "C" fn qm_reports_from_json_string(source: *const c_char) -> u64 {
 #[no_mangle]
 pub extern "C" fn qm_reports_as_json_string(handle: u64) -> *mut c_char {
     let reports_string = match catch_unwind(||
-        CString::new(eh::reports_as_string(handle)).unwrap()) {
+        c_string(&eh::reports_as_string(handle))) {
         Ok(result) => result,
         // the unwrap below could theoretically panic into C code, but in reality we
         // are passing in a hard-coded string which is known never to cause a panic
@@ -355,7 +355,7 @@ pub extern "C" fn qm_is_error(handle: u64) -> bool {
 #[no_mangle]
 pub extern "C" fn qm_error_string(handle: u64) -> *mut c_char {
     let error_string = match catch_unwind(||
-        CString::new(eh::as_error(handle).description()).unwrap()) {
+        c_string(eh::as_error(handle).description())) {
         Ok(result) => result,
         // the unwrap below could theoretically panic into C code, but in reality we
         // are passing in a hard-coded string which is known never to cause a panic
@@ -395,6 +395,12 @@ pub extern "C" fn qm_free_handle(handle: u64) {
     }
 }
 
+/// A C string ends at the first nul, so any nuls in the text (for example in an error
+/// message that quotes its input) are shown as an escape sequence.
+fn c_string(text: &str) -> CString {
+    CString::new(text.replace('\0', "\\0")).unwrap()
+}
+
 fn open_c_file(source: *const c_char) -> Result<File, qm::Error> {
     let source_bytes = unsafe { CStr::from_ptr(source).to_bytes() };
     let filename = str::from_utf8(source_bytes)?;
-- 
2.43.0


From 4cf5b94d042fd81910933b00a4084e0ff4e45b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:03 +0000
Subject: [PATCH 36/40] fix: price an option struck at zero on an underlying
 worth nothing

Such an option, for example one whose strike is set as a fraction of a
price of zero, was priced as not a number.
---
 src/instruments/options.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruments/options.rs b/src/instruments/options.rs
index 3188484..c835d1a 100644
--- a/src/instruments/options.rs
+++ b/src/instruments/options.rs
@@ -151,11 +151,11 @@ impl VanillaOption {
                 // do depends on how forward valuation will be used. The first real
                 // use case should drive the behaviour.
                 //
-                // If the strike is below the displacement, the underlying never falls
-                // as far as the strike.
+                // If the strike is not above the displacement, the underlying never falls
+                // below the strike.
                 let price = match self.put_or_call {
-                    PutOrCall::Put if k < 0.0 => 0.0,
-                    PutOrCall::Call if k < 0.0 => df * (f - k),
+                    PutOrCall::Put if k <= 0.0 => 0.0,
+                    PutOrCall::Call if k <= 0.0 => df * (f - k),
                     PutOrCall::Put => black76.put_price(df, f, k, sqrt_var),
                     PutOrCall::Call => black76.call_price(df, f, k, sqrt_var)
                 };
-- 
2.43.0


From 773f61bd6b1c9bda4e5dd43c3bcd318e4f9b558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:14 +0000
Subject: [PATCH 37/40] fix: reject a single interpolation point whose abscissa
 is NaN

---
 src/math/interpolation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/interpolation.rs b/src/math/interpolation.rs
index 34bc38e..1f2738c 100644
--- a/src/math/interpolation.rs
+++ b/src/math/interpolation.rs
@@ -171,6 +171,11 @@ pub fn validate_abscissae<T : Interpolable<T> + Copy>(points: &[(T, f64)])
         return Err(qm::Error::new("At least one point must be supplied"))
     }
 
+    // A lone point has no neighbour to be compared with, so use itself
+    if points.len() == 1 && points[0].0.interp_diff(points[0].0).is_nan() {
+        return Err(qm::Error::new("The point must not be NaN"))
+    }
+
     // Insist that the x values are separated by at least 1e-12. If they
     // get very close, the accuracy of the algorithm falls down.
     let tolerance = 1e-12;
-- 
2.43.0


From ac3de637fc8db512380ef91e4942c7a19346fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:21 +0000
Subject: [PATCH 38/40] fix: let a sticky delta surface follow a forward that
 differs only after the base date

VolForwardDynamics::modify left the surface alone when the new forward agreed
with the surface's own on the base date. A change of dividends, borrow or rates
leaves the spot alone and moves the rest of the forward, so the smile stayed at
the old moneyness.
---
 src/data/volsurface.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index a42edc9..234fc51 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -366,29 +366,16 @@ impl VolForwardDynamics {
             return Ok(())   // no need for change
         }
 
-        let forward;
-
-        match surface.forward() {
-            // if there is no surface forward, then no need for change
-            None => return Ok(()),
-            Some(vol_forward) => {
-
-                // otherwise we are going to need a forward curve. (The reason we pass in a function
-                // is because the result is often not needed.)
-                forward = forward_fn()?;
-    
-                // if the old forward matches the new one, there is no need to change
-                // TODO we need to check more dates than this, but without going
-                // past the last date of interest.
-                let base_date = surface.base_date().date();
-                let spot = forward.forward(base_date)?;
-                let vol_spot = vol_forward.interpolate(base_date)?;
-                if approx_eq(vol_spot, spot, vol_spot * 1e-12) {
-                    return Ok(())  // no need for change if no change to spot
-                }
-            }
+        // if there is no surface forward, then no need for change
+        if surface.forward().is_none() {
+            return Ok(())
         }
 
+        // Otherwise we are going to need a forward curve. (The reason we pass in a function
+        // is because the result is often not needed.) Note that a match with the old forward
+        // on one date, such as the base date, says nothing about the others.
+        let forward = forward_fn()?;
+
         // decorator for sticky delta or other non-sticky-strike needed
         *surface = Qrc::new(Arc::new(StickyDeltaBumpVol::new(surface.clone(), forward)));
  
-- 
2.43.0


From ec25ce56c548357420a8d26160d4a264e64307dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:04:17 +0000
Subject: [PATCH 39/40] fix: refetch a sticky delta vol surface when a bump
 moves its forward

The prefetched surface kept the forward it was first fetched with, so that
after a spot, dividend, borrow or yield bump the prefetched context disagreed
with the market data it was fetched from.
---
 src/risk/cache.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/risk/cache.rs b/src/risk/cache.rs
index 7c71142..eb2b883 100644
--- a/src/risk/cache.rs
+++ b/src/risk/cache.rs
@@ -102,10 +102,10 @@ impl PricingContextPrefetch {
                     }
                 }
 
-                // If we had vol surfaces such as sticky delta surfaces that
-                // needed to be updated when the forward was changed, we'd need
-                // the following test to be more complicated than just 
-                // looking at bumped_vol
+                // Vol surfaces such as sticky delta surfaces need to be
+                // updated when the forward is changed
+                let bumped_vol = bumped_vol || instrument.vol_forward_dynamics()
+                    .depends_on_forward();
 
                 // save the old vol surface if we are about to bump it
                 if bumped_vol {
@@ -114,9 +114,7 @@ impl PricingContextPrefetch {
                             s.entry(id_string).or_insert(vol.clone());
                         }
 
-                        // Refetch vol if required. If vol not found, it may
-                        // not be an error if we are responding to a forward
-                        // bump, but that code is not implemented yet.
+                        // Refetch vol if required.
                         if let Some(vol_hwm) = 
                             self.dependencies.vol_surface_hwm(inst) {
                             *vol = self.context.vol_surface(instrument, vol_hwm,
-- 
2.43.0


From 96ca3820e94983695c2c858dbca14b92a794721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:13:48 +0000
Subject: [PATCH 40/40] fix: keep the smile date of a forward start from
 passing its expiry

Valued over a weekend, the smile date was stepped from the next business day and
landed after the expiry. A sticky delta surface then asked its forward for a date
past the high water mark, and the option could not be priced.
---
 src/data/volsurface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/volsurface.rs b/src/data/volsurface.rs
index 234fc51..0b9a750 100644
--- a/src/data/volsurface.rs
+++ b/src/data/volsurface.rs
@@ -211,6 +211,10 @@ pub trait VolSurface : esd::Serialize + TypeId + Send + Sync + Debug {
             from.day_fraction(), to.date(), to.day_fraction());
         let smile_date = calendar.step_partial(base_date.date(), days, true);
 
+        // stepping rounds to whole days, and must not take us past the to date,
+        // which may be the last for which there is a forward
+        let smile_date = smile_date.min(to.date());
+
         // we always use the same time of day as the to date
         DateDayFraction::new(smile_date, to.day_fraction())
     }
-- 
2.43.0

