From dad21248210ff0d68c867693003f1ed5834bd511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 01/20] fix: no NaN interpolation weight at the last keyframe
 or between keyframes that share a time

---
 src/runtime/model/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..1766d5e 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -139,6 +139,9 @@ impl Time {
         };
         let hold = t0.hold;
         let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        // This is 0 / 0 exactly at the last keyframe, and where consecutive
+        // keyframes share a time.
+        let t = if t.is_nan() { 0.0 } else { t };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From 1a12082d3ed27e8ab21da5e7b4a035855bbe556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 02/20] fix: do not merge a group's geometry into geometry
 declared outside the group

---
 src/runtime/render.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..7686d33 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -201,7 +201,8 @@ impl Renderer {
                     );
                 }
                 Shape::Geometry(geometry) => {
-                    self.batch.push_geometry(geometry, transform, frame);
+                    self.batch
+                        .push_geometry(geometry, transform, geometry_start, frame);
                 }
                 Shape::Draw(draw) => {
                     self.batch.push_draw(draw, alpha, geometry_start, frame);
@@ -294,12 +295,19 @@ struct Batch {
 }
 
 impl Batch {
-    fn push_geometry(&mut self, geometry: &Geometry, transform: Affine, frame: f64) {
-        // Merge with the previous geometry if possible. There are two
+    fn push_geometry(
+        &mut self,
+        geometry: &Geometry,
+        transform: Affine,
+        geometry_start: usize,
+        frame: f64,
+    ) {
+        // Merge with the previous geometry if possible. There are three
         // conditions:
         // 1. The previous geometry has not yet been referenced by a draw
-        // 2. The geometries have the same transform
-        if self.drawn_geometry < self.geometries.len()
+        // 2. The previous geometry belongs to the current scope
+        // 3. The geometries have the same transform
+        if self.drawn_geometry.max(geometry_start) < self.geometries.len()
             && self.geometries.last().map(|last| last.transform) == Some(transform)
         {
             geometry.evaluate(frame, &mut self.elements);
-- 
2.43.0


From 740dd31e4a30f2d4fb824bb6410ddd3bb4bcf453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 03/20] fix: geometry removed by an empty trim stays removed
 when more geometry is merged

---
 src/runtime/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 7686d33..0c26b5f 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -382,7 +382,9 @@ impl Batch {
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
         let Some((first, second)) = trim.normalized() else {
             for geometry in &mut self.geometries[geometry_start..] {
-                geometry.elements = 0..0;
+                // Keep the (empty) range at its place so that later geometry
+                // merged into it does not bring back earlier elements.
+                geometry.elements = geometry.elements.end..geometry.elements.end;
             }
             return;
         };
-- 
2.43.0


From cb92bb6a50ec912ef5aad990f3f29cc08501c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 04/20] fix: hold keyframes also hold gradient stop offsets

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..4c3905b 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -488,8 +488,8 @@ impl ColorStops {
         let mut stops: fixed::ColorStops = Default::default();
         for i in 0..self.count {
             let j = i * 5;
-            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
             let t = if hold { 0.0 } else { t };
+            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 40140cf9f169483620950a2babe50a9d618fe47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 05/20] fix: animated gradient brushes honour the requested
 alpha

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 4c3905b..db0a62f 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -529,7 +529,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0


From 29c6ecfcb5feb59e1cbc1854451cc035ae8dccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 06/20] fix: import the opacity of gradient fills and strokes

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..951dfe5 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -502,7 +502,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -550,7 +550,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From 871967ccabdea0d09b5879bbcd49830084631e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 07/20] fix: a transform without scale is unscaled (100
 percent)

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 951dfe5..0c1f018 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -225,7 +227,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -262,7 +264,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position: Position::Value(conv_pos_point(position_in)),
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From 63ee15a0482aa95670a60ca8c7871b7b7dfeab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 08/20] fix: a gradient that declares no colour stops imports
 without stops

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 0c1f018..055ba59 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -944,7 +944,7 @@ pub fn conv_size(value: &MultiDimensional) -> Value<Size> {
 pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
     let mut stops: Vec<[f64; 5]> = Vec::new();
     let mut alpha_stops: Vec<(f64, f64)> = Vec::new();
-    for chunk in value.chunks_exact(4) {
+    for chunk in value.chunks_exact(4).take(count) {
         stops.push([chunk[0], chunk[1], chunk[2], chunk[3], 1.0]);
         if stops.len() >= count {
             // there is alpha data at the end of the list, which is a sequence
-- 
2.43.0


From c22ffaf5103f2f80ee5844ff3e2b15da5da94318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 09/20] fix: easing handles with no or several components no
 longer panic on import

---
 src/import/converters.rs | 52 +++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 055ba59..00dbbee 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -365,26 +365,22 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+/// Converts an easing handle. Only the first component of an array is used, and
+/// a handle without components counts as missing.
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -425,8 +421,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -723,8 +727,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -833,8 +845,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 26ebd4d3ee8d6b87643d72459b6cff5313746865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 10/20] fix: a scalar keyframe without components no longer
 panics on import

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 00dbbee..ddfe9ec 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -836,7 +836,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or(0.0);
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From cfc011d1e95f8c090d010d71038213c871974f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 11/20] fix: transforms with split or missing rotation and
 groups with split position import without panic

---
 src/import/converters.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ddfe9ec..a7583ac 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -209,10 +209,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // The z component is the rotation in the plane.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -240,18 +242,19 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // The z component is the rotation in the plane.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -263,7 +266,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(
             value
                 .transform
-- 
2.43.0


From ff2666e20557f9e71dc23364eb4fef0def5d07a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 12/20] fix: a path whose first keyframe has no start no longer
 panics on import

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index a7583ac..d989f11 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -748,7 +748,7 @@ pub fn conv_shape_geometry(
                         start.first()?.clone()
                     } else {
                         // No keyframe was present - we look for the previous end/start
-                        let prev = animated.get(idx - 1)?;
+                        let prev = animated.get(idx.checked_sub(1)?)?;
                         // Take the previous end if present, otherwise the previous start.
                         if let Some(prev_end) = prev.end.as_ref() {
                             if let Some(prev_end_bezier) = prev_end.first() {
-- 
2.43.0


From edf6daddf749b68b5c36a19698f071bc1f168c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 13/20] fix: assets that are not precompositions are ignored
 instead of panicking

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index d989f11..7d7bf45 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -101,9 +101,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // Other kinds of assets are not yet supported and are ignored.
+                _ => {}
             }
         }
     }
-- 
2.43.0


From 2aa78ee334bb7f4c598e6a615955be89d500062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 14/20] fix: the add and hard mix blend modes no longer panic
 on import

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 7d7bf45..14033b2 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -21,7 +21,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -824,8 +824,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::Plus),
+        // There is no corresponding blend mode.
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From 67661128580883d769a1a34ecb9505820756b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 15/20] fix: cyclic instance and matte references no longer
 recurse without end

---
 src/runtime/render.rs | 67 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 0c26b5f..2fe8d29 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -78,6 +78,11 @@ impl Renderer {
                 &animation.layers,
                 layer,
                 layer_index,
+                &LayerPath {
+                    asset: None,
+                    index: layer_index,
+                    outer: None,
+                },
                 transform,
                 alpha,
                 frame,
@@ -94,6 +99,7 @@ impl Renderer {
         layer_set: &[Layer],
         layer: &Layer,
         layer_index: usize,
+        path: &LayerPath<'_>,
         transform: Affine,
         alpha: f64,
         frame: f64,
@@ -111,12 +117,21 @@ impl Renderer {
             // it's currently supported in vello?) Extra layer to
             // isolate blending for the mask
             scene.push_layer(Mix::Normal, 1.0, parent_transform, &full_rect);
-            if let Some(mask) = layer_set.get(mask_index) {
+            // We don't check for cycles at import time, so a matte that is
+            // already being drawn is skipped.
+            if let Some(mask) = layer_set.get(mask_index)
+                && !path.contains_layer(path.asset, mask_index)
+            {
                 self.render_layer(
                     animation,
                     layer_set,
                     mask,
                     0,
+                    &LayerPath {
+                        asset: path.asset,
+                        index: mask_index,
+                        outer: Some(path),
+                    },
                     parent_transform,
                     alpha,
                     frame,
@@ -142,10 +157,13 @@ impl Renderer {
                 //     .as_ref()
                 //     .map(|tm| tm.evaluate(frame))
                 //     .unwrap_or(frame);
-                if let Some(asset_layers) = animation.assets.get(name) {
+                // An asset that is already being drawn is skipped as well.
+                if let Some(asset_layers) = animation.assets.get(name)
+                    && !path.contains_asset(name)
+                {
                     let frame = frame / layer.stretch;
                     let frame_delta = -layer.start_frame / layer.stretch;
-                    for asset_layer in asset_layers.iter().rev() {
+                    for (asset_index, asset_layer) in asset_layers.iter().enumerate().rev() {
                         if asset_layer.is_mask {
                             continue;
                         }
@@ -154,6 +172,11 @@ impl Renderer {
                             asset_layers,
                             asset_layer,
                             0,
+                            &LayerPath {
+                                asset: Some(name),
+                                index: asset_index,
+                                outer: Some(path),
+                            },
                             transform,
                             alpha,
                             frame + frame_delta,
@@ -251,6 +274,44 @@ impl Renderer {
     }
 }
 
+/// The layers being drawn, from the innermost one outwards.
+#[derive(Clone, Copy, Debug)]
+struct LayerPath<'a> {
+    /// Name of the asset the layer belongs to, `None` for the composition's
+    /// own layers.
+    asset: Option<&'a str>,
+    /// Position of the layer in its layer list.
+    index: usize,
+    /// The layer that instances this one or uses it as a matte.
+    outer: Option<&'a LayerPath<'a>>,
+}
+
+impl LayerPath<'_> {
+    /// Returns true if the layer is on the path.
+    fn contains_layer(&self, asset: Option<&str>, index: usize) -> bool {
+        let mut next = Some(self);
+        while let Some(path) = next {
+            if path.index == index && path.asset == asset {
+                return true;
+            }
+            next = path.outer;
+        }
+        false
+    }
+
+    /// Returns true if a layer of the asset is on the path.
+    fn contains_asset(&self, name: &str) -> bool {
+        let mut next = Some(self);
+        while let Some(path) = next {
+            if path.asset == Some(name) {
+                return true;
+            }
+            next = path.outer;
+        }
+        false
+    }
+}
+
 #[derive(Clone, Debug)]
 struct DrawData {
     stroke: Option<fixed::Stroke>,
-- 
2.43.0


From 030d01675e43870ae731eacd2aa20a28906e5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 16/20] fix: trimming a path of extreme length comes to an end

---
 src/runtime/render.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 2fe8d29..e4b4d33 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -496,14 +496,17 @@ impl Batch {
                         break;
                     }
 
+                    // The accuracy must be attainable in relation to the length,
+                    // otherwise the search does not come to an end.
+                    let accuracy = ACCURACY.max(seg_len * 1e-9);
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


From fdb15adc424bad19f5b218e243d23b078f0c573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 17/20] fix: trimming does not join the subpaths of a geometry

---
 src/runtime/render.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index e4b4d33..a170048 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -482,9 +482,17 @@ impl Batch {
                 let start_len = norm_start * total_length;
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
+                let mut current_point = None;
                 let mut need_move = true;
 
                 for seg in &segs {
+                    // A segment that does not start where the previous one ends
+                    // begins a new subpath.
+                    if current_point != Some(seg.start()) {
+                        need_move = true;
+                    }
+                    current_point = Some(seg.end());
+
                     let seg_len = seg.arclen(ACCURACY);
                     let seg_end = current_len + seg_len;
 
-- 
2.43.0


From fd970296bf0665525a7af7aed7dcc6dcd4d7dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:21 +0000
Subject: [PATCH 18/20] fix: layer groups report the layer's position in its
 own layer list

---
 src/runtime/render.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index a170048..5a5289c 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -126,7 +126,7 @@ impl Renderer {
                     animation,
                     layer_set,
                     mask,
-                    0,
+                    mask_index,
                     &LayerPath {
                         asset: path.asset,
                         index: mask_index,
@@ -171,7 +171,7 @@ impl Renderer {
                             animation,
                             asset_layers,
                             asset_layer,
-                            0,
+                            asset_index,
                             &LayerPath {
                                 asset: Some(name),
                                 index: asset_index,
-- 
2.43.0


From 91450b44a789b009704acc1cfbdea3634c5aa5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 19/20] fix: path keyframes follow their easing

---
 src/runtime/model/animated.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index db0a62f..71bddf1 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -303,11 +303,15 @@ impl Spline {
     /// Evaluates the spline at the given frame and emits the elements
     /// to the specified path.
     pub fn evaluate(&self, frame: f64, path: &mut Vec<PathEl>) -> bool {
-        let Some(([ix0, ix1], t, _easing, hold)) = Time::frames_and_weight(&self.times, frame)
+        let Some(([ix0, ix1], t, easing, hold)) = Time::frames_and_weight(&self.times, frame)
         else {
             return false;
         };
-        let t = if hold { 0.0 } else { t };
+        let t = if hold {
+            0.0
+        } else {
+            0.0.tween(&1.0, t, &easing)
+        };
         let (Some(from), Some(to)) = (self.values.get(ix0), self.values.get(ix1)) else {
             return false;
         };
-- 
2.43.0


From 1a30f728bf26dd37a9de48937d41062e45a34e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 20/20] fix: shapes marked hidden are not drawn

The hidden flag of graphic elements was parsed but never looked at, so that
hidden fills, strokes, geometries, trims and whole groups were drawn.
---
 src/import/converters.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 14033b2..67253fc 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -572,6 +572,10 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
 }
 
 fn conv_shape(value: &schema::shapes::AnyShape) -> Option<crate::runtime::model::Shape> {
+    if is_shape_hidden(value) {
+        return None;
+    }
+
     match conv_draw(value) {
         Some(draw) => {
             return Some(crate::runtime::model::Shape::Draw(draw));
@@ -631,6 +635,30 @@ fn conv_shape(value: &schema::shapes::AnyShape) -> Option<crate::runtime::model:
     }
 }
 
+fn is_shape_hidden(value: &schema::shapes::AnyShape) -> bool {
+    use schema::shapes::AnyShape;
+    let element = match value {
+        AnyShape::Group(s) => &s.graphic_element,
+        AnyShape::Rectangle(s) => &s.shape.graphic_element,
+        AnyShape::Ellipse(s) => &s.shape.graphic_element,
+        AnyShape::PolyStar(s) => &s.shape.graphic_element,
+        AnyShape::Path(s) => &s.shape.graphic_element,
+        AnyShape::Transform(s) => &s.graphic_element,
+        AnyShape::Fill(s) => &s.shape_style.graphic_element,
+        AnyShape::Stroke(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientFill(s) => &s.shape_style.graphic_element,
+        AnyShape::GradientStroke(s) => &s.shape_style.graphic_element,
+        AnyShape::Merge(s) => &s.graphic_element,
+        AnyShape::Trim(s) => &s.modifier.graphic_element,
+        AnyShape::PuckerBloat(s) => &s.modifier.graphic_element,
+        AnyShape::Repeater(s) => &s.modifier.graphic_element,
+        AnyShape::OffsetPath(s) => &s.modifier.graphic_element,
+        AnyShape::Twist(s) => &s.modifier.graphic_element,
+        AnyShape::RoundedCorners(s) => &s.modifier.graphic_element,
+    };
+    element.hidden == Some(true)
+}
+
 fn conv_geometry(value: &schema::shapes::AnyShape) -> Option<crate::runtime::model::Geometry> {
     use schema::shapes::AnyShape;
     match value {
-- 
2.43.0

