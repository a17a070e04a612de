//! P28: what Spline::evaluate's contract says about path keyframes.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::verif_p01::*;
use crate::runtime::model::*;
use crate::runtime::model::value::*;
use crate::runtime::model::spline::{lerp_pts, path_of};
use kurbo::{PathEl, Point};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields};

/// the shape a keyframe moves to: its own end, or else the next keyframe's shape
pub open spec fn goal(s: animated::Spline, i: int, j: int) -> Seq<Point> {
    match s.values@[i].end { Some(e) => e@, None => s.values@[j].start@ }
}
/// P28: which shapes and which fraction of the way a frame shows
pub proof fn p28_keyframes(s: animated::Spline, frame: f64)
    requires sorted_times(s.times@), finite(frame), s.times@.len() == s.values@.len(), s.times@.len() <= usize::MAX
    ensures ({ let t = s.times@; let v = s.values@; let i = fw_ix0(t, frame); let j = fw_ix1(t, frame);
        &&& (t.len() == 0 ==> s.els(frame).len() == 0)
        &&& (t.len() > 0 ==> 0 <= i < t.len() && 0 <= j < t.len())
        // before the first keyframe and at any keyframe's time: that keyframe's own shape
        &&& (t.len() > 0 && frame.ieee_lt(t[0].frame) ==> i == 0 && s.at(frame) == Some((v[0].start@, goal(s, i, j), 0.0f64)))
        &&& ((exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).frame.ieee_eq(frame)) ==> t[i].frame.ieee_eq(frame) && s.at(frame) == Some((v[i].start@, goal(s, i, j), 0.0f64)))
        // after the last keyframe without an end of its own: its shape, from itself to itself
        &&& (t.len() > 0 && frame.ieee_gt(t.last().frame) && v.last().end is None ==> i == t.len() - 1 && s.at(frame) is Some && s.at(frame)->Some_0.0 == v.last().start@ && s.at(frame)->Some_0.1 == v.last().start@)
        // in between: from the earlier keyframe's shape towards its goal, by the fraction a number going
        // from 0 to 1 under the same keyframes would have; none of it on a hold keyframe
        &&& (t.len() > 0 && !frame.ieee_lt(t[0].frame) && !frame.ieee_gt(t.last().frame) && !t[i].frame.ieee_eq(frame) ==>
              j == i + 1 && t[i].frame.ieee_lt(frame) && frame.ieee_lt(t[j].frame)
              && s.at(frame) == Some((v[i].start@, goal(s, i, j), if t[i].hold { 0.0f64 } else { f64_tween(0.0f64, 1.0f64, fw_weight(t, frame), easing_of(t[i])) })))
    })
{
    let t = s.times@; let v = s.values@;
    if t.len() > 0 {
        lemma_search(t, frame);
        let i = fw_ix0(t, frame); let j = fw_ix1(t, frame);
        let t0 = t[i].frame; let t1 = t[j].frame;
        assert(finite(t0)); assert(finite(t1));
        let d0 = frame.ieee_sub(t0); let d1 = t1.ieee_sub(t0);
        if i < j { assert(t0.ieee_le(t1)); }
        assert(0.0f64.ieee_le(0.0f64)) by(bit_vector);
        lemma_d(frame, t0, t1);
        lemma_clamp(nz(d0.ieee_div(d1)));
    }
}
/// P28: the same number as the one a scalar between two values moves by: a + (b - a) * y, with y the
/// ordinate of the keyframe's easing curve at the elapsed fraction
pub proof fn p28_fraction(t: f64, e: Easing)
    requires !t.ieee_is_nan(), !ease(t, e).ieee_is_nan()
    ensures f64_tween(0.0f64, 1.0f64, t, e).ieee_eq(if t.ieee_le(0.0f64) { 0.0f64 } else if t.ieee_ge(1.0f64) { 1.0f64 } else { ease(t, e) })
{
    let y = ease(t, e);
    assert(0.0f64.ieee_eq(0.0f64) && 1.0f64.ieee_eq(1.0f64)) by(bit_vector);
    assert(1.0f64.ieee_sub(0.0f64) == 1.0f64) by(bit_vector);
    lemma_one(y);
}
pub proof fn lemma_one(y: f64) requires !y.ieee_is_nan() ensures 0.0f64.ieee_add(1.0f64.ieee_mul(y)).ieee_eq(y) {
    assert(!y.ieee_is_nan() ==> 1.0f64.ieee_mul(y) == y) by(bit_vector);
    assert(!y.ieee_is_nan() ==> 0.0f64.ieee_add(y).ieee_eq(y)) by(bit_vector);
}
/// P28: one path, of as many points as the shorter list holds, each moved by the same fraction
pub proof fn p28_points(s: animated::Spline, frame: f64)
    ensures match s.at(frame) {
        None => s.els(frame).len() == 0,
        Some((a, b, w)) => exists|p: Seq<Point>| #[trigger] path_of(p, s.is_closed) == s.els(frame)
            && p.len() == (if a.len() <= b.len() { a.len() } else { b.len() })
            && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == point_lerp(a[k], b[k], w),
    }
{
    match s.at(frame) { None => {}, Some((a, b, w)) => { let p = lerp_pts(a, b, w); assert(path_of(p, s.is_closed) == s.els(frame)); } }
}
/// P28: a fraction of 0 leaves the shape as it is, and so does moving from a shape to itself
pub proof fn p28_still(a: Point, b: Point, w: f64)
    requires finite(a.x), finite(a.y), finite(b.x), finite(b.y), finite(b.x.ieee_sub(a.x)), finite(b.y.ieee_sub(a.y)), finite(w)
    ensures point_eq(point_lerp(a, b, 0.0f64), a), point_eq(point_lerp(a, a, w), a)
{
    lemma_still(a.x, b.x, w); lemma_still(a.y, b.y, w);
}
pub proof fn lemma_still(a: f64, b: f64, w: f64)
    requires finite(a), finite(b), finite(b.ieee_sub(a)), finite(w)
    ensures a.ieee_add(0.0f64.ieee_mul(b.ieee_sub(a))).ieee_eq(a), a.ieee_add(w.ieee_mul(a.ieee_sub(a))).ieee_eq(a)
{
    let d = b.ieee_sub(a); let z = a.ieee_sub(a);
    assert(!d.ieee_is_nan() && !d.ieee_is_infinite() ==> 0.0f64.ieee_mul(d).ieee_is_zero()) by(bit_vector);
    assert(!a.ieee_is_nan() && !a.ieee_is_infinite() ==> a.ieee_sub(a).ieee_is_zero()) by(bit_vector);
    assert(!w.ieee_is_nan() && !w.ieee_is_infinite() && z.ieee_is_zero() ==> w.ieee_mul(z).ieee_is_zero()) by(bit_vector);
    let p = 0.0f64.ieee_mul(d); let q = w.ieee_mul(z);
    assert(!a.ieee_is_nan() && !a.ieee_is_infinite() && p.ieee_is_zero() ==> a.ieee_add(p).ieee_eq(a)) by(bit_vector);
    assert(!a.ieee_is_nan() && !a.ieee_is_infinite() && q.ieee_is_zero() ==> a.ieee_add(q).ieee_eq(a)) by(bit_vector);
}
}
