//! Float type invariants of fields of the repository's own structs (all proved, nothing trusted).
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::runtime::model::*;
verus! {
pub open spec fn ff_easinghandle_x(p: EasingHandle) -> f64 { p.x }
pub broadcast proof fn tf_easinghandle_x(p: EasingHandle) ensures #[trigger] p.x == ff_easinghandle_x(p) { }
pub open spec fn ff_easinghandle_y(p: EasingHandle) -> f64 { p.y }
pub broadcast proof fn tf_easinghandle_y(p: EasingHandle) ensures #[trigger] p.y == ff_easinghandle_y(p) { }
pub open spec fn ff_time_frame(p: Time) -> f64 { p.frame }
pub broadcast proof fn tf_time_frame(p: Time) ensures #[trigger] p.frame == ff_time_frame(p) { }
pub open spec fn ff_fixed_repeater_offset(p: fixed::Repeater) -> f64 { p.offset }
pub broadcast proof fn tf_fixed_repeater_offset(p: fixed::Repeater) ensures #[trigger] p.offset == ff_fixed_repeater_offset(p) { }
pub open spec fn ff_fixed_repeater_rotation(p: fixed::Repeater) -> f64 { p.rotation }
pub broadcast proof fn tf_fixed_repeater_rotation(p: fixed::Repeater) ensures #[trigger] p.rotation == ff_fixed_repeater_rotation(p) { }
pub open spec fn ff_fixed_repeater_start_opacity(p: fixed::Repeater) -> f64 { p.start_opacity }
pub broadcast proof fn tf_fixed_repeater_start_opacity(p: fixed::Repeater) ensures #[trigger] p.start_opacity == ff_fixed_repeater_start_opacity(p) { }
pub open spec fn ff_fixed_repeater_end_opacity(p: fixed::Repeater) -> f64 { p.end_opacity }
pub broadcast proof fn tf_fixed_repeater_end_opacity(p: fixed::Repeater) ensures #[trigger] p.end_opacity == ff_fixed_repeater_end_opacity(p) { }
pub open spec fn ff_fixed_trim_start(p: fixed::Trim) -> f64 { p.start }
pub broadcast proof fn tf_fixed_trim_start(p: fixed::Trim) ensures #[trigger] p.start == ff_fixed_trim_start(p) { }
pub open spec fn ff_fixed_trim_end(p: fixed::Trim) -> f64 { p.end }
pub broadcast proof fn tf_fixed_trim_end(p: fixed::Trim) ensures #[trigger] p.end == ff_fixed_trim_end(p) { }
pub open spec fn ff_fixed_trim_offset(p: fixed::Trim) -> f64 { p.offset }
pub broadcast proof fn tf_fixed_trim_offset(p: fixed::Trim) ensures #[trigger] p.offset == ff_fixed_trim_offset(p) { }
pub open spec fn ff_animated_star_direction(p: animated::Star) -> f64 { p.direction }
pub broadcast proof fn tf_animated_star_direction(p: animated::Star) ensures #[trigger] p.direction == ff_animated_star_direction(p) { }
pub open spec fn ff_range_start(p: core::ops::Range<f64>) -> f64 { p.start }
pub broadcast proof fn tf_range_start(p: core::ops::Range<f64>) ensures #[trigger] p.start == ff_range_start(p) { }
pub open spec fn ff_range_end(p: core::ops::Range<f64>) -> f64 { p.end }
pub broadcast proof fn tf_range_end(p: core::ops::Range<f64>) ensures #[trigger] p.end == ff_range_end(p) { }
pub broadcast group group_fields { tf_range_start, tf_range_end, tf_easinghandle_x, tf_easinghandle_y, tf_time_frame, tf_fixed_repeater_offset, tf_fixed_repeater_rotation, tf_fixed_repeater_start_opacity, tf_fixed_repeater_end_opacity, tf_fixed_trim_start, tf_fixed_trim_end, tf_fixed_trim_offset, tf_animated_star_direction }
}
