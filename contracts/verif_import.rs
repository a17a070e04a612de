//! What a document means: spec functions over the document model used by the importer's contracts.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::verif_spec::*;
use crate::verif_iter::*;
use crate::schema::animated_properties::gradient_colors::GradientColors;
use crate::schema;
use crate::schema::layers::AnyLayer;
use crate::schema::assets::AnyAsset;
use crate::schema::layers::layer::Layer as SrcLayer;
use crate::schema::layers::visual::VisualLayer;
use crate::schema::animated_properties::keyframe_bezier_handle::*;
use crate::schema::animated_properties::keyframe::Keyframe;
use crate::schema::animated_properties::keyframe_base::KeyframeBase;
use crate::schema::animated_properties::animated_property::AnimatedPropertyK;
use crate::schema::helpers::int_boolean::BoolInt;
use crate::runtime::model::*;

use crate::runtime::model;
use peniko::{BlendMode, Mix, Compose};
use kurbo::{Point, Vec2, Size};
use peniko::Color;
use crate::schema::animated_properties::value::FloatValue;
use crate::schema::animated_properties::multi_dimensional::MultiDimensional;
use crate::schema::animated_properties::color_value::ColorValue;
use crate::schema::animated_properties::position::{Position, PositionValueK};
use crate::schema::animated_properties::position_keyframe::PositionKeyframe;
use crate::schema::helpers::bezier::Bezier;
use crate::schema::helpers::transform::{AnyTransformP, AnyTransformR, Transform as SrcTransform};
use crate::runtime::model::animated;
use crate::runtime::model::fixed;
use crate::schema::animated_properties::shape_property::{ShapeProperty, ShapePropertyK};
use crate::schema::animated_properties::shape_keyframe::ShapeKeyframe;
use crate::schema::shapes::AnyShape;
use crate::schema::shapes::base_stroke::BaseStrokeShape;
use crate::schema::shapes::base_gradient::BaseGradientShape;
use crate::schema::shapes::polystar::PolyStarShape;
use crate::schema::shapes::transform::TransformShape;
use crate::schema::constants::line_cap::LineCap;
use crate::schema::constants::line_join::LineJoin;
use crate::schema::constants::gradient_type::GradientType;
use crate::schema::constants::star_type::StarType;
use kurbo::{Cap, Join, PathEl};
use crate::schema::helpers::mask::Mask as SrcMask;
use crate::schema::constants::matte_mode::MatteMode;
verus! {
pub assume_specification [<BlendMode as From<Mix>>::from] (m: Mix) -> (r: BlendMode) ensures r == blend_mix(m);
pub assume_specification [<BlendMode as From<Compose>>::from] (c: Compose) -> (r: BlendMode) ensures r == blend_compose(c);

// the derived equality of flags
/// cloning an array of two floats returns an equal array
pub broadcast axiom fn ax_clone_pair(a: [f64; 2], b: [f64; 2]) requires #[trigger] cloned(a, b) ensures a == b;
/// no allocation exceeds isize::MAX bytes
pub broadcast axiom fn ax_len_coord(v: Vec<[f64; 2]>) ensures #[trigger] v@.len() <= 0x0800_0000_0000_0000;
pub broadcast group group_import { ax_blend_eq, ax_blend_obeys, ax_len_coord }
/// `x.get(0..=1)` / `x.get(0..=2)` matched against an array pattern
#[verifier::external_body]
pub fn w_get2(x: &Vec<f64>) -> (r: Option<(&f64, &f64)>) ensures x@.len() < 2 ==> r is None, x@.len() >= 2 ==> r == Some((&x@[0], &x@[1])) { match x.get(0..=1) { Some([a, b]) => Some((a, b)), _ => None } }
#[verifier::external_body]
pub fn w_get3(x: &Vec<f64>) -> (r: Option<(&f64, &f64, &f64)>) ensures x@.len() < 3 ==> r is None, x@.len() >= 3 ==> r == Some((&x@[0], &x@[1], &x@[2])) { match x.get(0..=2) { Some([a, b, c]) => Some((a, b, c)), _ => None } }

pub open spec fn blend_of(m: schema::constants::blend_mode::BlendMode) -> Option<BlendMode> {
    match m {
        schema::constants::blend_mode::BlendMode::Normal => None,
        schema::constants::blend_mode::BlendMode::Multiply => Some(blend_mix(Mix::Multiply)),
        schema::constants::blend_mode::BlendMode::Screen => Some(blend_mix(Mix::Screen)),
        schema::constants::blend_mode::BlendMode::Overlay => Some(blend_mix(Mix::Overlay)),
        schema::constants::blend_mode::BlendMode::Darken => Some(blend_mix(Mix::Darken)),
        schema::constants::blend_mode::BlendMode::Lighten => Some(blend_mix(Mix::Lighten)),
        schema::constants::blend_mode::BlendMode::ColorDodge => Some(blend_mix(Mix::ColorDodge)),
        schema::constants::blend_mode::BlendMode::ColorBurn => Some(blend_mix(Mix::ColorBurn)),
        schema::constants::blend_mode::BlendMode::HardLight => Some(blend_mix(Mix::HardLight)),
        schema::constants::blend_mode::BlendMode::SoftLight => Some(blend_mix(Mix::SoftLight)),
        schema::constants::blend_mode::BlendMode::Difference => Some(blend_mix(Mix::Difference)),
        schema::constants::blend_mode::BlendMode::Exclusion => Some(blend_mix(Mix::Exclusion)),
        schema::constants::blend_mode::BlendMode::Hue => Some(blend_mix(Mix::Hue)),
        schema::constants::blend_mode::BlendMode::Saturation => Some(blend_mix(Mix::Saturation)),
        schema::constants::blend_mode::BlendMode::Color => Some(blend_mix(Mix::Color)),
        schema::constants::blend_mode::BlendMode::Luminosity => Some(blend_mix(Mix::Luminosity)),
        schema::constants::blend_mode::BlendMode::Add => Some(blend_compose(Compose::Plus)),
        // there is no such mode in the renderer
        schema::constants::blend_mode::BlendMode::HardMix => None,
    }
}
pub open spec fn unit_of(a: f64, b: f64, x: f64) -> f64 { if a.ieee_eq(b) { 0.0f64 } else { x.ieee_sub(a).ieee_div(b.ieee_sub(a)) } }

// ---- keyframes
pub open spec fn first_of(c: KeyframeComponent) -> Option<f64> {
    match c { KeyframeComponent::ArrayOfValues(v) => if v@.len() == 0 { None } else { Some(v@[0]) }, KeyframeComponent::SingleValue(x) => Some(x) }
}
/// the one easing handle of a number: the first of its components
pub open spec fn handle_of(h: KeyframeBezierHandle) -> Option<EasingHandle> {
    match (first_of(h.x_coordinate), first_of(h.y_coordinate)) { (Some(x), Some(y)) => Some(EasingHandle { x, y }), _ => None }
}
pub open spec fn opt_handle(h: Option<KeyframeBezierHandle>) -> Option<EasingHandle> { match h { Some(h) => handle_of(h), None => None } }
pub open spec fn hold_of(b: KeyframeBase) -> bool { b.hold == Some(BoolInt::True) }
/// the time of a keyframe with at most one handle on each side
pub open spec fn time_of(b: KeyframeBase) -> Time {
    Time { frame: b.time, in_tangent: opt_handle(b.in_tangent), out_tangent: opt_handle(b.out_tangent), hold: hold_of(b) }
}

pub open spec fn krefs<'a, K>(v: Seq<K>) -> Seq<&'a K> { Seq::new(v.len(), |i: int| &v[i]) }
pub open spec fn head_or_zero(v: Seq<f64>) -> f64 { if v.len() == 0 { 0.0f64 } else { v[0] } }
/// a keyframed number
pub open spec fn scalar_is(v: Value<f64>, s: FloatValue) -> bool {
    match s.animated_property.value {
        AnimatedPropertyK::Static(x) => v == Value::Fixed(x),
        AnimatedPropertyK::AnimatedValue(ks) => v is Animated
            && v->Animated_0.times@ == Seq::new(ks@.len(), |i: int| time_of(ks@[i].base))
            && v->Animated_0.values@ == Seq::new(ks@.len(), |i: int| head_or_zero(ks@[i].value@)),
    }
}
pub open spec fn min2(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// the easing handles on one side of a vector's keyframe: one per component, at most two
pub open spec fn handles_of(h: Option<KeyframeBezierHandle>) -> Seq<EasingHandle> {
    match h {
        None => Seq::empty(),
        Some(h) => match (h.x_coordinate, h.y_coordinate) {
            (KeyframeComponent::ArrayOfValues(x), KeyframeComponent::ArrayOfValues(y)) =>
                Seq::new(min2(min2(x@.len(), 2), min2(y@.len(), 2)), |i: int| EasingHandle { x: x@[i], y: y@[i] }),
            (KeyframeComponent::ArrayOfValues(x), KeyframeComponent::SingleValue(y)) => Seq::new(min2(x@.len(), 2), |i: int| EasingHandle { x: x@[i], y: y }),
            (KeyframeComponent::SingleValue(x), KeyframeComponent::ArrayOfValues(y)) => Seq::new(min2(y@.len(), 2), |i: int| EasingHandle { x: x, y: y@[i] }),
            (KeyframeComponent::SingleValue(x), KeyframeComponent::SingleValue(y)) => seq![EasingHandle { x, y }],
        },
    }
}
pub open spec fn pairs_of(b: KeyframeBase) -> nat { min2(handles_of(b.in_tangent).len(), handles_of(b.out_tangent).len()) }
/// the entries of one keyframe of a vector: one per pair of handles, or one without handles; all alike in time and hold
pub open spec fn entries_of(b: KeyframeBase) -> Seq<Time> {
    if pairs_of(b) == 0 { seq![Time { frame: b.time, in_tangent: None, out_tangent: None, hold: hold_of(b) }] }
    else { Seq::new(pairs_of(b), |i: int| Time { frame: b.time, in_tangent: Some(handles_of(b.in_tangent)[i]), out_tangent: Some(handles_of(b.out_tangent)[i]), hold: hold_of(b) }) }
}
/// the entries of a list of keyframes, in order, and the keyframe each entry comes from
pub open spec fn all_entries(ks: Seq<&Keyframe>) -> Seq<Time> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { all_entries(ks.drop_last()) + entries_of(ks.last().base) }
}
pub open spec fn sources<'a>(ks: Seq<&'a Keyframe>) -> Seq<&'a Keyframe> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { sources(ks.drop_last()) + Seq::new(entries_of(ks.last().base).len(), |i: int| ks.last()) }
}
pub proof fn lemma_sources(ks: Seq<&Keyframe>) ensures sources(ks).len() == all_entries(ks).len() decreases ks.len() {
    if ks.len() != 0 { lemma_sources(ks.drop_last()); }
}
/// a keyframed value whose entries follow the keyframes `ks`, the value of each entry in the relation `f` to its keyframe
pub open spec fn keyed<T: Tween>(v: Value<T>, ks: Seq<&Keyframe>, f: spec_fn(Seq<f64>) -> T) -> bool {
    v is Animated && v->Animated_0.times@ == all_entries(ks)
        && v->Animated_0.values@ == Seq::new(sources(ks).len(), |i: int| f(sources(ks)[i].value@))
}
pub open spec fn multi_is<T: Tween>(v: Value<T>, k: AnimatedPropertyK<Vec<f64>>, f: spec_fn(Seq<f64>) -> T) -> bool {
    match k {
        AnimatedPropertyK::Static(c) => v == Value::Fixed(f(c@)),
        AnimatedPropertyK::AnimatedValue(ks) => keyed(v, krefs(ks@), f),
    }
}
pub open spec fn pos_keys<'a>(ks: Seq<PositionKeyframe>) -> Seq<&'a Keyframe> { Seq::new(ks.len(), |i: int| &ks[i].keyframe) }
pub open spec fn pos_is<T: Tween>(v: Value<T>, p: Position, f: spec_fn(Seq<f64>) -> T) -> bool {
    match p.value {
        PositionValueK::Static(c) => v == Value::Fixed(f(c@)),
        PositionValueK::Animated(ks) => keyed(v, pos_keys(ks@), f),
    }
}
/// the components of a vector; a list that is too short counts as zeros
pub open spec fn two(c: Seq<f64>) -> (f64, f64) { if c.len() < 2 { (0.0f64, 0.0f64) } else { (c[0], c[1]) } }
pub open spec fn three(c: Seq<f64>) -> (f64, f64, f64) { if c.len() < 3 { (0.0f64, 0.0f64, 0.0f64) } else { (c[0], c[1], c[2]) } }
pub open spec fn as_point(c: Seq<f64>) -> Point { Point { x: two(c).0, y: two(c).1 } }
pub open spec fn as_vec2(c: Seq<f64>) -> Vec2 { Vec2 { x: two(c).0, y: two(c).1 } }
pub open spec fn as_size(c: Seq<f64>) -> Size { Size { width: two(c).0, height: two(c).1 } }
pub open spec fn as_color(c: Seq<f64>) -> Color { color_new([c_f32(three(c).0), c_f32(three(c).1), c_f32(three(c).2), 1.0f32]) }
pub open spec fn f_point() -> spec_fn(Seq<f64>) -> Point { |c: Seq<f64>| as_point(c) }
pub open spec fn f_vec2() -> spec_fn(Seq<f64>) -> Vec2 { |c: Seq<f64>| as_vec2(c) }
pub open spec fn f_size() -> spec_fn(Seq<f64>) -> Size { |c: Seq<f64>| as_size(c) }
pub open spec fn f_color() -> spec_fn(Seq<f64>) -> Color { |c: Seq<f64>| as_color(c) }

// ---- paths
pub open spec fn coord(c: [f64; 2]) -> Point { Point { x: c@[0], y: c@[1] } }
pub open spec fn coord_at(v: Seq<[f64; 2]>, i: int) -> Point { if i < v.len() { coord(v[i]) } else { Point { x: 0.0f64, y: 0.0f64 } } }
/// vertex, in-tangent and out-tangent of every vertex; a missing tangent is zero
pub open spec fn spline_pts(b: Bezier) -> Seq<Point> {
    Seq::new(3 * b.vertices@.len(), |j: int| if j % 3 == 0 { coord(b.vertices@[j / 3]) } else if j % 3 == 1 { coord_at(b.in_tangents@, j / 3) } else { coord_at(b.out_tangents@, j / 3) })
}
pub open spec fn closed_of(b: Bezier) -> bool { b.closed == Some(true) }

// ---- gradients
pub open spec fn lerp_easing() -> Easing { Easing { o: EasingHandle { x: 0.0f64, y: 0.0f64 }, i: EasingHandle { x: 1.0f64, y: 1.0f64 } } }
/// the alpha that the pair of alpha stops (p, q) gives at the offset x
pub open spec fn alpha_between(p: (f64, f64), q: (f64, f64), x: f64) -> f64 {
    let t = unit_of(p.0, q.0, x);
    let inside = x.ieee_ge(p.0) && x.ieee_le(q.0);
    if inside && t.ieee_ge(0.75f64) && x.ieee_ge(0.9f64) { q.1 }
    else if inside && t.ieee_le(0.25f64) && x.ieee_le(0.1f64) { p.1 }
    else { p.1.tween_spec(&q.1, t, &lerp_easing()) }
}
/// the smallest of them over all neighbouring pairs, never above one
pub open spec fn alpha_at(track: Seq<(f64, f64)>, x: f64) -> f64 decreases track.len() {
    if track.len() < 2 { 1.0f64 } else { f_min(alpha_at(track.drop_last(), x), alpha_between(track[track.len() - 2], track.last(), x)) }
}
/// the alpha track behind the `count` colour stops
pub open spec fn alpha_track(v: Seq<f64>, count: int) -> Seq<(f64, f64)> {
    let n = v.len() as int / 2 - 2 * count;
    Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| (v[4 * count + 2 * i], v[4 * count + 2 * i + 1]))
}
/// the colour stops present in the list
pub open spec fn n_stops(v: Seq<f64>, count: int) -> int { if count <= v.len() as int / 4 { count } else { v.len() as int / 4 } }
/// offset, red, green, blue and alpha of stop `j`
pub open spec fn stop_comp(v: Seq<f64>, count: int, j: int, c: int) -> f64 {
    if c < 4 { v[4 * j + c] } else if count <= v.len() as int / 4 { alpha_at(alpha_track(v, count), v[4 * j]) } else { 1.0f64 }
}
pub open spec fn stops_is(r: Seq<[f64; 5]>, v: Seq<f64>, count: int) -> bool {
    r.len() == n_stops(v, count) && forall|j: int, c: int| 0 <= j < r.len() && 0 <= c < 5 ==> #[trigger] r[j]@[c] == stop_comp(v, count, j, c)
}
pub open spec fn stop_of(v: Seq<f64>, count: int, j: int) -> peniko::ColorStop {
    stop_new(c_f32(stop_comp(v, count, j, 0)), color_new([c_f32(stop_comp(v, count, j, 1)), c_f32(stop_comp(v, count, j, 2)), c_f32(stop_comp(v, count, j, 3)), c_f32(stop_comp(v, count, j, 4))]))
}
pub open spec fn flat_stops(v: Seq<f64>, count: int) -> Seq<f64> { Seq::new((5 * n_stops(v, count)) as nat, |m: int| stop_comp(v, count, m / 5, m % 5)) }
pub open spec fn gradient_is(r: model::ColorStops, g: GradientColors) -> bool {
    match g.colors.animated_property.value {
        AnimatedPropertyK::Static(v) => r is Fixed && stops_view(r->Fixed_0) == Seq::new(n_stops(v@, g.count as int) as nat, |j: int| stop_of(v@, g.count as int, j)),
        AnimatedPropertyK::AnimatedValue(ks) => r is Animated && r->Animated_0.count == g.count
            && r->Animated_0.frames@ == Seq::new(ks@.len(), |i: int| time_of(ks@[i].base))
            && r->Animated_0.values@.len() == ks@.len()
            && forall|i: int| 0 <= i < ks@.len() ==> (#[trigger] r->Animated_0.values@[i])@ == flat_stops(ks@[i].value@, g.count as int),
    }
}
pub proof fn lemma_flat5(s: Seq<[f64; 5]>)
    ensures flat_all(s).len() == 5 * s.len(), forall|m: int| 0 <= m < 5 * s.len() ==> #[trigger] flat_all(s)[m] == s[m / 5]@[m % 5]
    decreases s.len()
{
    if s.len() != 0 {
        let t = s.drop_last(); lemma_flat5(t);
        let n = t.len() as int;
        assert forall|m: int| 0 <= m < 5 * s.len() implies #[trigger] flat_all(s)[m] == s[m / 5]@[m % 5] by {
            if m < 5 * n { assert(flat_all(s)[m] == flat_all(t)[m]); assert(m / 5 < n); assert(t[m / 5] == s[m / 5]); }
            else { assert(m / 5 == n && m % 5 == m - 5 * n); assert(flat_all(s)[m] == s.last().flat()[m - 5 * n]); }
        }
    }
}
pub proof fn lemma_flat_stops(s: Seq<[f64; 5]>, v: Seq<f64>, count: int)
    requires stops_is(s, v, count), n_stops(v, count) >= 0
    ensures flat_all(s) == flat_stops(v, count)
{
    lemma_flat5(s);
    assert forall|m: int| 0 <= m < 5 * s.len() implies #[trigger] flat_all(s)[m] == flat_stops(v, count)[m] by { assert(0 <= m / 5 < s.len() && 0 <= m % 5 < 5); assert(flat_all(s)[m] == s[m / 5]@[m % 5]); }
    assert(flat_all(s) =~= flat_stops(v, count));
}
// ---- values a document leaves out
pub open spec fn float_zero(v: FloatValue) -> bool { v.animated_property.value == AnimatedPropertyK::Static(0.0f64) }
pub open spec fn float_hundred(v: FloatValue) -> bool { v.animated_property.value == AnimatedPropertyK::Static(100.0f64) }
pub open spec fn multi_hundred(v: MultiDimensional) -> bool { match v.animated_property.value { AnimatedPropertyK::Static(c) => c@ == seq![100.0f64, 100.0f64, 100.0f64], _ => false } }
pub open spec fn position_zero(v: Position) -> bool { match v.value { PositionValueK::Static(c) => c@ == seq![0.0f64, 0.0f64], _ => false } }
pub open spec fn scalar_or(v: Value<f64>, s: Option<FloatValue>, d: f64) -> bool { match s { Some(x) => scalar_is(v, x), None => v == Value::Fixed(d) } }

// ---- transforms
/// the rotation in the plane
pub open spec fn rotation_of(t: SrcTransform) -> Option<FloatValue> {
    match t.rotation { Some(AnyTransformR::Rotation(f)) => Some(f), Some(AnyTransformR::SplitRotation { x_rotation, y_rotation, z_rotation, orientation }) => Some(z_rotation), None => None }
}
pub open spec fn position_is(p: animated::Position, s: AnyTransformP) -> bool {
    match s {
        AnyTransformP::Position(v) => p is Value && pos_is(p->Value_0, v, f_point()),
        AnyTransformP::SplitPosition(v) => p is SplitValues && scalar_is(p->SplitValues_0.0, v.x) && scalar_is(p->SplitValues_0.1, v.y),
    }
}
pub open spec fn xf_parts(t: animated::Transform, s: SrcTransform) -> bool {
    &&& match s.anchor_point { Some(a) => pos_is(t.anchor, a, f_point()), None => t.anchor == Value::Fixed(Point { x: 0.0f64, y: 0.0f64 }) }
    &&& position_is(t.position, s.position)
    &&& match s.scale { Some(a) => multi_is(t.scale, a.animated_property.value, f_vec2()), None => t.scale == Value::Fixed(Vec2 { x: 100.0f64, y: 100.0f64 }) }
    &&& scalar_or(t.rotation, rotation_of(s), 0.0f64)
    &&& scalar_or(t.skew, s.skew, 0.0f64)
    &&& scalar_or(t.skew_angle, s.skew_axis, 0.0f64)
}
/// `r` moves things as the document's transform says
pub open spec fn xf_is(r: model::Transform, s: SrcTransform) -> bool { exists|t: animated::Transform| #[trigger] t.becomes(r) && xf_parts(t, s) }

// ---- paints
pub open spec fn join_of(j: Option<LineJoin>, d: Join) -> Join { match j { Some(LineJoin::Bevel) => Join::Bevel, Some(LineJoin::Round) => Join::Round, Some(LineJoin::Miter) => Join::Miter, None => d } }
pub open spec fn cap_of(c: Option<LineCap>, d: Cap) -> Cap { match c { Some(LineCap::Butt) => Cap::Butt, Some(LineCap::Round) => Cap::Round, Some(LineCap::Square) => Cap::Square, None => d } }
pub open spec fn stroke_parts(k: animated::Stroke, b: BaseStrokeShape, dj: Join, dc: Cap) -> bool {
    scalar_is(k.width, b.width) && k.join == join_of(b.line_join, dj) && k.cap == cap_of(b.line_cap, dc) && k.miter_limit == b.miter_limit
}
pub open spec fn stroke_is(r: Option<model::Stroke>, b: BaseStrokeShape, dj: Join, dc: Cap) -> bool {
    match r { Some(m) => stroke_from(m, b, dj, dc), None => false }
}
pub open spec fn stroke_from(m: model::Stroke, b: BaseStrokeShape, dj: Join, dc: Cap) -> bool { exists|k: animated::Stroke| #[trigger] k.becomes(m) && stroke_parts(k, b, dj, dc) }
pub open spec fn solid_is(r: model::Brush, c: ColorValue) -> bool {
    exists|b: animated::Brush| #[trigger] b.becomes(r) && b is Solid && multi_is(b->Solid_0, c.animated_property.value, f_color())
}
pub open spec fn gradient_parts(g: animated::Gradient, s: BaseGradientShape) -> bool {
    g.is_radial == (s.gradient_type == Some(GradientType::Radial)) && multi_is(g.start_point, s.start_point.animated_property.value, f_point())
        && multi_is(g.end_point, s.end_point.animated_property.value, f_point()) && gradient_is(g.stops, s.colors)
}
pub open spec fn gradient_brush_is(r: model::Brush, s: BaseGradientShape) -> bool {
    exists|b: animated::Brush| #[trigger] b.becomes(r) && b is Gradient && gradient_parts(b->Gradient_0, s)
}
pub open spec fn draw_is(d: model::Draw, s: AnyShape) -> bool {
    match s {
        AnyShape::Fill(v) => d.stroke is None && solid_is(d.brush, v.color) && scalar_is(d.opacity, v.shape_style.opacity),
        AnyShape::Stroke(v) => stroke_is(d.stroke, v.base_stroke, Join::Bevel, Cap::Butt) && solid_is(d.brush, v.stroke_color) && scalar_is(d.opacity, v.shape_style.opacity),
        AnyShape::GradientFill(v) => d.stroke is None && gradient_brush_is(d.brush, v.gradient) && scalar_is(d.opacity, v.shape_style.opacity),
        AnyShape::GradientStroke(v) => stroke_is(d.stroke, v.base_stroke, Join::Round, Cap::Round) && gradient_brush_is(d.brush, v.gradient) && scalar_is(d.opacity, v.shape_style.opacity),
        _ => false,
    }
}
pub open spec fn paints(s: AnyShape) -> bool { s is Fill || s is Stroke || s is GradientFill || s is GradientStroke }

// ---- geometries
/// the path of keyframe `i`; one without its own takes the previous keyframe's end, or else its start
pub open spec fn start_of(ks: Seq<ShapeKeyframe>, i: int) -> Option<Bezier> {
    match ks[i].start {
        Some(s) => if s@.len() > 0 { Some(s@[0]) } else { None },
        None => if i == 0 { None } else {
            match end_of(ks[i - 1]) { Some(e) => Some(e), None => match ks[i - 1].start { Some(s) => if s@.len() > 0 { Some(s@[0]) } else { None }, None => None } }
        },
    }
}
pub open spec fn end_of(k: ShapeKeyframe) -> Option<Bezier> { match k.end { Some(e) => if e@.len() > 0 { Some(e@[0]) } else { None }, None => None } }
/// one of the first `n` keyframes is closed
pub open spec fn any_closed(ks: Seq<ShapeKeyframe>, n: int) -> bool decreases n {
    n > 0 && (any_closed(ks, n - 1) || (start_of(ks, n - 1) is Some && closed_of(start_of(ks, n - 1)->Some_0)) || (end_of(ks[n - 1]) is Some && closed_of(end_of(ks[n - 1])->Some_0)))
}
pub open spec fn key_values_are(v: animated::SplineKeyframeValues, ks: Seq<ShapeKeyframe>, i: int) -> bool {
    start_of(ks, i) is Some && v.start@ == spline_pts(start_of(ks, i)->Some_0)
        && match end_of(ks[i]) { Some(e) => v.end is Some && v.end->Some_0@ == spline_pts(e), None => v.end is None }
}
pub open spec fn path_is(r: Option<model::Geometry>, p: ShapeProperty) -> bool {
    match p.value {
        ShapePropertyK::Static(b) => r is Some && r->Some_0 is Fixed && (r->Some_0)->Fixed_0@ == model::spline::path_of(spline_pts(b), closed_of(b)),
        ShapePropertyK::Animated(ks) => match r {
            None => exists|i: int| 0 <= i < ks@.len() && #[trigger] start_of(ks@, i) is None,
            Some(g) => g is Spline && g->Spline_0.is_closed == any_closed(ks@, ks@.len() as int)
                && g->Spline_0.times@ == Seq::new(ks@.len(), |i: int| time_of(ks@[i].base))
                && g->Spline_0.values@.len() == ks@.len()
                && forall|i: int| 0 <= i < ks@.len() ==> key_values_are(#[trigger] g->Spline_0.values@[i], ks@, i),
        },
    }
}
pub open spec fn path_keys(p: ShapeProperty) -> Option<Seq<ShapeKeyframe>> { match p.value { ShapePropertyK::Animated(ks) => Some(ks@), ShapePropertyK::Static(_) => None } }
pub open spec fn scalar_or_unless(v: Value<f64>, drop: bool, s: Option<FloatValue>) -> bool { if drop { v == Value::Fixed(0.0f64) } else { scalar_or(v, s, 0.0f64) } }
pub open spec fn star_parts(t: animated::Star, s: PolyStarShape) -> bool {
    t.is_polygon == (s.star_type is Polygon) && t.direction == 1.0f64 && pos_is(t.position, s.position, f_point())
        && scalar_is(t.outer_radius, s.outer_radius) && scalar_is(t.outer_roundness, s.outer_roundness) && scalar_is(t.rotation, s.rotation) && scalar_is(t.points, s.points)
        && scalar_or_unless(t.inner_radius, s.star_type is Polygon, s.inner_radius) && scalar_or_unless(t.inner_roundness, s.star_type is Polygon, s.inner_roundness)
}
pub open spec fn star_is(g: model::Geometry, s: PolyStarShape) -> bool { exists|t: animated::Star| #[trigger] t.becomes(g) && star_parts(t, s) }
pub open spec fn geometry_is(r: Option<model::Geometry>, s: AnyShape) -> bool {
    match s {
        AnyShape::Ellipse(v) => r is Some && r->Some_0 is Ellipse && pos_is((r->Some_0)->Ellipse_0.position, v.position, f_point()) && multi_is((r->Some_0)->Ellipse_0.size, v.size.animated_property.value, f_size()),
        AnyShape::Rectangle(v) => r is Some && r->Some_0 is Rect && pos_is((r->Some_0)->Rect_0.position, v.position, f_point()) && multi_is((r->Some_0)->Rect_0.size, v.size.animated_property.value, f_size())
            && scalar_is((r->Some_0)->Rect_0.corner_radius, v.rounded_corner_radius),
        AnyShape::Path(v) => path_is(r, v.shape_property),
        AnyShape::PolyStar(v) => r is Some && star_is(r->Some_0, v),
        _ => r is None,
    }
}

// ---- shapes
pub open spec fn trim_parts(t: animated::Trim, s: schema::shapes::trim_path::TrimPathShape) -> bool { scalar_is(t.start, s.start) && scalar_is(t.end, s.end) && scalar_is(t.offset, s.offset) }
pub open spec fn trim_is(r: model::Trim, s: schema::shapes::trim_path::TrimPathShape) -> bool { exists|t: animated::Trim| #[trigger] t.becomes(r) && trim_parts(t, s) }
/// the transform of a group: the last one declared in it
pub open spec fn last_transform(items: Seq<AnyShape>) -> Option<TransformShape> decreases items.len() {
    if items.len() == 0 { None } else { match items.last() { AnyShape::Transform(t) => Some(t), _ => last_transform(items.drop_last()) } }
}
pub open spec fn group_transform_is(r: Option<model::GroupTransform>, items: Seq<AnyShape>) -> bool {
    match last_transform(items) { Some(t) => r is Some && xf_is(r->Some_0.transform, t.transform) && scalar_or(r->Some_0.opacity, t.transform.opacity, 100.0f64), None => r is None }
}
/// what a shape of the document becomes (`None`: nothing)
pub open spec fn shape_is(r: Option<model::Shape>, s: AnyShape) -> bool decreases s {
    if shape_hidden(s) { r is None } else { match s {
        AnyShape::Group(g) => exists|rs: Seq<Option<model::Shape>>| rs.len() == g.shapes@.len()
            && (forall|i: int| 0 <= i < g.shapes@.len() ==> if g.shapes@[i] is Transform { rs[i] is None } else { shape_is(#[trigger] rs[i], g.shapes@[i]) })
            && #[trigger] group_is(r, rs, g.shapes@),
        AnyShape::Trim(t) => r is Some && r->Some_0 is Trim && trim_is((r->Some_0)->Trim_0, t),
        _ => if paints(s) { r is Some && r->Some_0 is Draw && draw_is((r->Some_0)->Draw_0, s) } else {
            match r { Some(g) => g is Geometry && geometry_is(Some(g->Geometry_0), s), None => geometry_is(None, s) }
        },
    } }
}
/// the properties every shape has
pub open spec fn element_of(s: AnyShape) -> schema::shapes::graphic_element::GraphicElementShape {
    match s {
        AnyShape::Group(s) => s.graphic_element,
        AnyShape::Rectangle(s) => s.shape.graphic_element,
        AnyShape::Ellipse(s) => s.shape.graphic_element,
        AnyShape::PolyStar(s) => s.shape.graphic_element,
        AnyShape::Path(s) => s.shape.graphic_element,
        AnyShape::Transform(s) => s.graphic_element,
        AnyShape::Fill(s) => s.shape_style.graphic_element,
        AnyShape::Stroke(s) => s.shape_style.graphic_element,
        AnyShape::GradientFill(s) => s.shape_style.graphic_element,
        AnyShape::GradientStroke(s) => s.shape_style.graphic_element,
        AnyShape::Merge(s) => s.graphic_element,
        AnyShape::Trim(s) => s.modifier.graphic_element,
        AnyShape::PuckerBloat(s) => s.modifier.graphic_element,
        AnyShape::Repeater(s) => s.modifier.graphic_element,
        AnyShape::OffsetPath(s) => s.modifier.graphic_element,
        AnyShape::Twist(s) => s.modifier.graphic_element,
        AnyShape::RoundedCorners(s) => s.modifier.graphic_element,
    }
}
pub open spec fn shape_hidden(s: AnyShape) -> bool { element_of(s).hidden == Some(true) }
pub open spec fn item_is(r: Option<model::Shape>, s: AnyShape) -> bool { if s is Transform { r is None } else { shape_is(r, s) } }
/// a group of the items that became something, with its transform; a group of nothing is nothing
pub open spec fn group_is(r: Option<model::Shape>, rs: Seq<Option<model::Shape>>, items: Seq<AnyShape>) -> bool {
    if flat_all(rs).len() == 0 { r is None } else { r is Some && r->Some_0 is Group && (r->Some_0)->Group_0@ == flat_all(rs) && group_transform_is((r->Some_0)->Group_1, items) }
}

// ---- layers
pub open spec fn visual_of(l: AnyLayer) -> VisualLayer {
    match l {
        AnyLayer::Null(x) => x.visual_layer, AnyLayer::Precomposition(x) => x.visual_layer, AnyLayer::Shape(x) => x.visual_layer,
        AnyLayer::Solid(x) => x.visual_layer, AnyLayer::Image(x) => x.visual_layer,
    }
}
pub open spec fn or_empty<T>(o: Option<Vec<T>>) -> Seq<T> { match o { Some(v) => v@, None => Seq::empty() } }
/// `o.as_ref().unwrap_or(&Vec::default())`
#[verifier::external_body]
pub fn w_or_empty<'a, T>(o: &'a Option<Vec<T>>) -> (r: &'a [T]) ensures r@ == or_empty(*o) { o.as_deref().unwrap_or(&[]) }
pub broadcast axiom fn ax_blend_eq(a: BlendMode, b: BlendMode) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_blend_obeys() ensures #[trigger] <BlendMode as PartialEqSpec<BlendMode>>::obeys_eq_spec();
pub assume_specification [<BlendMode as PartialEq>::eq] (a: &BlendMode, b: &BlendMode) -> (r: bool) ensures r == (*a == *b);
pub assume_specification [<BlendMode as Default>::default] () -> (r: BlendMode) ensures r == blend_mix(Mix::Normal);
pub open spec fn matte_of(m: MatteMode) -> BlendMode {
    match m {
        MatteMode::Normal => blend_mix(Mix::Normal),
        MatteMode::Alpha | MatteMode::Luma => blend_compose(Compose::SrcIn),
        MatteMode::InvertedAlpha | MatteMode::InvertedLuma => blend_compose(Compose::SrcOut),
    }
}
/// a mask of the document: nothing without a convertible path
pub open spec fn mask_is(r: Option<model::Mask>, m: SrcMask) -> bool {
    match m.shape {
        None => r is None,
        Some(p) => match r { Some(x) => path_is(Some(x.geometry), p) && scalar_or(x.opacity, m.opacity, 100.0f64) && x.mode == blend_mix(Mix::Normal), None => path_is(None, p) },
    }
}
pub open spec fn masks_are(r: Seq<model::Mask>, ms: Seq<SrcMask>) -> bool {
    exists|xs: Seq<Option<model::Mask>>| #[trigger] masks_from(xs, ms) && r == flat_all(xs)
}
pub open spec fn masks_from(xs: Seq<Option<model::Mask>>, ms: Seq<SrcMask>) -> bool { xs.len() == ms.len() && forall|i: int| 0 <= i < ms.len() ==> mask_is(#[trigger] xs[i], ms[i]) }
/// the parent is the referenced index until it is resolved
pub open spec fn parent_is(r: model::Layer, v: VisualLayer) -> bool { r.parent == v.layer.parent_index }
/// what every kind of layer has in common
pub open spec fn base_is(r: model::Layer, v: VisualLayer) -> bool {
    &&& r.name@ == match v.layer.visual_object.name { Some(n) => n@, None => Seq::empty() }
    &&& xf_is(r.transform, v.transform) && scalar_or(r.opacity, v.transform.opacity, 100.0f64)
    &&& r.is_mask == (v.matte_target == Some(BoolInt::True))
    &&& r.blend_mode == match v.blend_mode { Some(m) => blend_of(m), None => None }
    &&& r.stretch == match v.layer.time_stretch { Some(s) => s, None => 1.0f64 }
    &&& r.frames.start == v.layer.in_point && r.frames.end == v.layer.out_point
    &&& masks_are(r.masks@, or_empty(v.masks_properties))
}
pub open spec fn start_or_zero(v: VisualLayer) -> f64 { match v.layer.start_time { Some(s) => s, None => 0.0f64 } }
/// the identification of a layer and its matte within its layer list
pub open spec fn params_are(id: usize, mode: Option<BlendMode>, matte: Option<usize>, v: VisualLayer) -> bool {
    &&& id == match v.layer.index { Some(i) => i, None => 0 }
    &&& mode == match v.matte_mode { Some(m) => Some(matte_of(m)), None => None }
    &&& matte == match v.matte_layer_index { Some(i) => Some(c_usize(i)), None => None }
}
pub open spec fn flagged(v: VisualLayer) -> bool { v.matte_target == Some(BoolInt::True) }
pub open spec fn hidden(l: AnyLayer) -> bool { layer_of(l).hidden == Some(true) }
pub open spec fn shapes_from(rs: Seq<Option<model::Shape>>, items: Seq<AnyShape>) -> bool { rs.len() == items.len() && forall|i: int| 0 <= i < items.len() ==> shape_is(#[trigger] rs[i], items[i]) }
/// a hidden layer shows nothing; instances and shapes show what they name
pub open spec fn content_is(c: model::Content, l: AnyLayer) -> bool {
    if hidden(l) { c is None } else {
        match l {
            AnyLayer::Precomposition(p) => c is Instance && c->name@ == p.ref_id@ && match p.time_remap { Some(t) => c->time_remap is Some && scalar_is(c->time_remap->Some_0, t), None => c->time_remap is None },
            AnyLayer::Shape(s) => c is Shape && exists|rs: Seq<Option<model::Shape>>| #[trigger] shapes_from(rs, s.shapes@) && c->Shape_0@ == flat_all(rs),
            _ => c is None,
        }
    }
}
/// a layer of the document before references are resolved; a hidden one is never a matte source
pub open spec fn layer_is(r: model::Layer, l: AnyLayer) -> bool {
    &&& base_is(model::Layer { is_mask: flagged(visual_of(l)), ..r }, visual_of(l))
    &&& r.is_mask == (flagged(visual_of(l)) && !hidden(l))
    &&& r.start_frame == match l { AnyLayer::Precomposition(p) => p.start_time, _ => start_or_zero(visual_of(l)) }
    &&& match l { AnyLayer::Precomposition(p) => r.width == p.width && r.height == p.height, _ => r.width == 0.0f64 && r.height == 0.0f64 }
    &&& content_is(r.content, l)
}
pub open spec fn unlinked(r: model::Layer, l: AnyLayer) -> bool { parent_is(r, visual_of(l)) && r.mask_layer is None }
pub open spec fn entry_is(e: (model::Layer, usize, Option<BlendMode>, Option<usize>), l: AnyLayer) -> bool { layer_is(e.0, l) && unlinked(e.0, l) && params_are(e.1, e.2, e.3, visual_of(l)) }

// ---- references within a layer list
pub type Entry = (model::Layer, usize, Option<BlendMode>, Option<usize>);
pub open spec fn ids(es: Seq<Entry>) -> Seq<usize> { Seq::new(es.len(), |i: int| es[i].1) }
/// the position of the last layer that carries an index
pub open spec fn last_with(es: Seq<Entry>, id: usize) -> Option<usize> decreases es.len() {
    if es.len() == 0 { None } else if es.last().1 == id { Some((es.len() - 1) as usize) } else { last_with(es.drop_last(), id) }
}
pub open spec fn lookup(m: Map<usize, usize>, k: usize) -> Option<usize> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// the nearest matte source among the first `n` layers that no layer in between has consumed
pub open spec fn open_matte(es: Seq<Entry>, n: int) -> Option<usize> decreases n {
    if n <= 0 { None } else if es[n - 1].0.is_mask { Some((n - 1) as usize) } else if es[n - 1].2 is Some { None } else { open_matte(es, n - 1) }
}
pub open spec fn matte_link(es: Seq<Entry>, i: int) -> Option<usize> { match es[i].3 { Some(k) => last_with(es, k), None => open_matte(es, i) } }
pub open spec fn linked(es: Seq<Entry>, i: int) -> model::Layer {
    model::Layer {
        parent: match es[i].0.parent { Some(p) => last_with(es, p), None => None },
        mask_layer: match es[i].2 { Some(mode) => match matte_link(es, i) { Some(j) => Some((mode, j)), None => None }, None => None },
        ..es[i].0
    }
}
pub open spec fn layers_from(es: Seq<Entry>, r: Seq<model::Layer>, src: Seq<AnyLayer>) -> bool {
    &&& es.len() == src.len() && r.len() == src.len()
    &&& forall|i: int| 0 <= i < src.len() ==> entry_is(#[trigger] es[i], src[i])
    &&& forall|i: int| 0 <= i < src.len() ==> #[trigger] r[i] == linked(es, i)
}
/// a layer list of the document, references resolved within it
pub open spec fn layers_are(r: Seq<model::Layer>, src: Seq<AnyLayer>) -> bool { exists|es: Seq<Entry>| #[trigger] layers_from(es, r, src) }

// ---- documents
pub open spec fn asset_is(v: Option<Vec<model::Layer>>, a: AnyAsset) -> bool { match a { AnyAsset::Precomposition(p) => v is Some && layers_are(v->Some_0@, p.composition.layers@), _ => v is None } }
pub open spec fn assets_from(vs: Seq<Option<Vec<model::Layer>>>, list: Seq<AnyAsset>) -> bool { vs.len() == list.len() && forall|i: int| 0 <= i < list.len() ==> asset_is(#[trigger] vs[i], list[i]) }
/// the last asset of a name is the one of that name
pub open spec fn asset_map(vs: Seq<Option<Vec<model::Layer>>>, list: Seq<AnyAsset>) -> Map<String, Vec<model::Layer>> decreases list.len() {
    if list.len() == 0 { Map::empty() } else {
        match (vs.last(), list.last()) { (Some(v), AnyAsset::Precomposition(p)) => asset_map(vs.drop_last(), list.drop_last()).insert(p.asset.id, v), _ => asset_map(vs.drop_last(), list.drop_last()) }
    }
}
pub open spec fn assets_are(m: Map<String, Vec<model::Layer>>, list: Seq<AnyAsset>) -> bool { exists|vs: Seq<Option<Vec<model::Layer>>>| #[trigger] assets_from(vs, list) && m == asset_map(vs, list) }
pub open spec fn composition_is(r: crate::Composition, a: schema::Animation) -> bool {
    &&& r.frames.start == a.in_point && r.frames.end == a.out_point && r.frame_rate == a.frame_rate && r.width == a.width && r.height == a.height
    &&& layers_are(r.layers@, a.composition.layers@)
    &&& assets_are(r.assets@, or_empty(a.assets))
}
pub open spec fn layer_of(l: AnyLayer) -> SrcLayer { visual_of(l).layer }
}
