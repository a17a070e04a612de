//! Shared specification module of the verified copy: IEEE bridges, trusted contracts of dependencies
//! (std, kurbo, peniko) and spec functions used by several modules.  Everything marked `axiom`,
//! `assume_specification` or `external_body` here is TRUSTED and is listed in the evidence.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;

// ---------------------------------------------------------------------------------------------
// IEEE-754: the primitive operators compute the IEEE operation (ieee_* is SMT FloatingPoint theory)
// ---------------------------------------------------------------------------------------------
pub broadcast axiom fn ax_lt(a: f64, b: f64, o: bool) ensures #[trigger] lt_ensures::<f64>(a,b,o) ==> o == a.ieee_lt(b);
pub broadcast axiom fn ax_le(a: f64, b: f64, o: bool) ensures #[trigger] le_ensures::<f64>(a,b,o) ==> o == a.ieee_le(b);
pub broadcast axiom fn ax_gt(a: f64, b: f64, o: bool) ensures #[trigger] gt_ensures::<f64>(a,b,o) ==> o == a.ieee_gt(b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, o: bool) ensures #[trigger] ge_ensures::<f64>(a,b,o) ==> o == a.ieee_ge(b);
pub broadcast axiom fn ax_eq(a: f64, b: f64, o: bool) ensures #[trigger] eq_ensures::<f64>(a,b,o) ==> o == a.ieee_eq(b);
pub broadcast axiom fn ax_ne(a: f64, b: f64, o: bool) ensures #[trigger] ne_ensures::<f64>(a,b,o) ==> o == !a.ieee_eq(b);
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64) ensures #[trigger] add_ensures::<f64>(a,b,o) ==> o == a.ieee_add(b);
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64) ensures #[trigger] sub_ensures::<f64>(a,b,o) ==> o == a.ieee_sub(b);
pub broadcast axiom fn ax_mul(a: f64, b: f64, o: f64) ensures #[trigger] mul_ensures::<f64>(a,b,o) ==> o == a.ieee_mul(b);
pub broadcast axiom fn ax_div(a: f64, b: f64, o: f64) ensures #[trigger] div_ensures::<f64>(a,b,o) ==> o == a.ieee_div(b);
pub broadcast axiom fn ax_addr(a: f64, b: f64) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn ax_subr(a: f64, b: f64) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn ax_mulr(a: f64, b: f64) ensures #[trigger] a.mul_req(b);
pub broadcast axiom fn ax_divr(a: f64, b: f64) ensures #[trigger] a.div_req(b);

pub broadcast group group_ieee { ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_ne, ax_add, ax_sub, ax_mul, ax_div, ax_addr, ax_subr, ax_mulr, ax_divr, ax_into_point, ax_into_point_pair, ax_into_vec2, ax_into_vec2_pair, ax_aff_mulr, ax_vec2_subr }

pub open spec fn f_clamp(x: f64, lo: f64, hi: f64) -> f64 { if x.ieee_lt(lo) { lo } else if x.ieee_gt(hi) { hi } else { x } }
pub open spec fn f_abs(x: f64) -> f64 { if x.ieee_is_negative() { x.ieee_neg() } else { x } }
pub uninterp spec fn f_max(a: f64, b: f64) -> f64;
pub uninterp spec fn f_min(a: f64, b: f64) -> f64;
pub uninterp spec fn f_to_radians(a: f64) -> f64;
pub uninterp spec fn f_tan(a: f64) -> f64;
pub uninterp spec fn f_sin(a: f64) -> f64;
pub uninterp spec fn f_cos(a: f64) -> f64;
pub uninterp spec fn f_powf(a: f64, b: f64) -> f64;
pub uninterp spec fn f_round(a: f64) -> f64;
pub uninterp spec fn f_rem_euclid(a: f64, b: f64) -> f64;
pub assume_specification [f64::abs] (x: f64) -> (r: f64) ensures r == f_abs(x);
pub assume_specification [f64::clamp] (x: f64, lo: f64, hi: f64) -> (r: f64) requires lo.ieee_le(hi), ensures r == f_clamp(x, lo, hi);
pub assume_specification [f64::is_nan] (x: f64) -> (r: bool) ensures r == x.ieee_is_nan();
pub assume_specification [f64::max] (x: f64, y: f64) -> (r: f64) ensures r == f_max(x, y);
pub assume_specification [f64::min] (x: f64, y: f64) -> (r: f64) ensures r == f_min(x, y);
pub assume_specification [f64::to_radians] (x: f64) -> (r: f64) ensures r == f_to_radians(x);
pub assume_specification [f64::tan] (x: f64) -> (r: f64) ensures r == f_tan(x);
pub assume_specification [f64::sin] (x: f64) -> (r: f64) ensures r == f_sin(x);
pub assume_specification [f64::cos] (x: f64) -> (r: f64) ensures r == f_cos(x);
pub assume_specification [f64::powf] (x: f64, y: f64) -> (r: f64) ensures r == f_powf(x, y);
pub assume_specification [f64::round] (x: f64) -> (r: f64) ensures r == f_round(x);
pub assume_specification [f64::rem_euclid] (x: f64, y: f64) -> (r: f64) ensures r == f_rem_euclid(x, y);

pub open spec fn f_tau() -> f64 { 6.28318530717958647692528676655900577f64 }
pub open spec fn f_frac_pi_2() -> f64 { 1.57079632679489661923132169163975144f64 }
pub assume_specification [core::f64::consts::TAU] -> (r: f64) ensures r == f_tau();
pub assume_specification [core::f64::consts::PI] -> (r: f64) ensures r == 3.14159265358979323846264338327950288f64;
pub assume_specification [core::f64::consts::FRAC_PI_2] -> (r: f64) ensures r == f_frac_pi_2();
pub proof fn lemma_01() ensures 0.0f64.ieee_le(1.0f64) { assert(0.0f64.ieee_le(1.0f64)) by(bit_vector); }

/// slicing `lo..hi` of a sequence of length n
pub fn w_range_ok(lo: usize, hi: usize, n: usize) requires lo <= hi <= n { }
#[verifier::external_body]
pub fn f_neg(x: f64) -> (r: f64) ensures r == x.ieee_neg() { -x }

// ---------------------------------------------------------------------------------------------
// std
// ---------------------------------------------------------------------------------------------
/// the value `T::default()` returns (deterministic)
pub uninterp spec fn default_of<T>() -> T;
pub broadcast axiom fn ax_default_f64() ensures #[trigger] default_of::<f64>() == 0.0f64;
#[verifier::external_body]
pub fn w_default<T: Default>() -> (r: T) ensures r == default_of::<T>() { T::default() }

/// `slice::binary_search_by`: the result depends only on the slice and on the ordering the comparator
/// computes; documented behaviour for slices sorted with respect to it.
pub uninterp spec fn bs_result<T>(s: Seq<T>, key: spec_fn(T) -> Ordering) -> Result<usize, usize>;
pub open spec fn ord_le(a: Ordering, b: Ordering) -> bool {
    match (a, b) { (Ordering::Less, _) => true, (Ordering::Equal, Ordering::Less) => false, (Ordering::Equal, _) => true, (Ordering::Greater, Ordering::Greater) => true, _ => false }
}
pub broadcast axiom fn ax_bs<T>(s: Seq<T>, key: spec_fn(T) -> Ordering)
    requires s.len() <= usize::MAX,
    ensures match #[trigger] bs_result(s, key) {
        Ok(i) => 0 <= i < s.len() && key(s[i as int]) == Ordering::Equal,
        Err(i) => 0 <= i <= s.len()
            && ((forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] ord_le(key(s[a]), key(s[b]))) ==>
                (forall|j: int| 0 <= j < i ==> key(#[trigger] s[j]) == Ordering::Less)
                && (forall|j: int| i <= j < s.len() ==> key(#[trigger] s[j]) == Ordering::Greater)),
    };
pub assume_specification <'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by::<'a, F>] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires forall|x: &'a T| f.requires((x,)),
    ensures
        forall|key: spec_fn(T) -> Ordering| (forall|x: &'a T, o: Ordering| #[trigger] f.ensures((x,), o) ==> o == key(*x)) ==> r == #[trigger] bs_result(s@, key),
;


// ---------------------------------------------------------------------------------------------
// kurbo
// ---------------------------------------------------------------------------------------------
#[verifier::external_type_specification]
pub struct ExPoint(kurbo::Point);
#[verifier::external_type_specification]
pub struct ExVec2(kurbo::Vec2);
#[verifier::external_type_specification]
pub struct ExSize(kurbo::Size);
#[verifier::external_type_specification]
pub struct ExCubicBez(kurbo::CubicBez);
pub assume_specification [kurbo::Point::new] (x: f64, y: f64) -> (r: kurbo::Point) ensures r == (kurbo::Point { x, y });
pub assume_specification [kurbo::Vec2::new] (x: f64, y: f64) -> (r: kurbo::Vec2) ensures r == (kurbo::Vec2 { x, y });
pub assume_specification [kurbo::Size::new] (x: f64, y: f64) -> (r: kurbo::Size) ensures r == (kurbo::Size { width: x, height: y });
pub assume_specification [<kurbo::Point as Clone>::clone] (p: &kurbo::Point) -> (r: kurbo::Point) ensures r == *p;
pub assume_specification [<kurbo::Vec2 as Clone>::clone] (p: &kurbo::Vec2) -> (r: kurbo::Vec2) ensures r == *p;
pub assume_specification [<kurbo::Size as Clone>::clone] (p: &kurbo::Size) -> (r: kurbo::Size) ensures r == *p;
/// the point `p.into()` (identity for points)
pub uninterp spec fn into_point<P>(p: P) -> kurbo::Point;
pub broadcast axiom fn ax_into_point(p: kurbo::Point) ensures #[trigger] into_point::<kurbo::Point>(p) == p;
pub assume_specification <P: Into<kurbo::Point>> [kurbo::CubicBez::new::<P>] (p0: P, p1: P, p2: P, p3: P) -> (r: kurbo::CubicBez)
    ensures r == (kurbo::CubicBez { p0: into_point(p0), p1: into_point(p1), p2: into_point(p2), p3: into_point(p3) });
pub uninterp spec fn cubic_eval(c: kurbo::CubicBez, u: f64) -> kurbo::Point;
pub assume_specification [<kurbo::CubicBez as kurbo::ParamCurve>::eval] (c: &kurbo::CubicBez, u: f64) -> (r: kurbo::Point) ensures r == cubic_eval(*c, u);


/// the vector `p.into()`
pub uninterp spec fn into_vec2<P>(p: P) -> kurbo::Vec2;
pub broadcast axiom fn ax_into_vec2(p: kurbo::Vec2) ensures #[trigger] into_vec2::<kurbo::Vec2>(p) == p;
pub broadcast axiom fn ax_into_vec2_pair(p: (f64, f64)) ensures #[trigger] into_vec2::<(f64, f64)>(p) == (kurbo::Vec2 { x: p.0, y: p.1 });
pub broadcast axiom fn ax_into_point_pair(p: (f64, f64)) ensures #[trigger] into_point::<(f64, f64)>(p) == (kurbo::Point { x: p.0, y: p.1 });
pub assume_specification [kurbo::Point::to_vec2] (p: kurbo::Point) -> (r: kurbo::Vec2) ensures r == (kurbo::Vec2 { x: p.x, y: p.y });
pub open spec fn vec2_sub(a: kurbo::Vec2, b: kurbo::Vec2) -> kurbo::Vec2 { kurbo::Vec2 { x: a.x.ieee_sub(b.x), y: a.y.ieee_sub(b.y) } }
pub assume_specification [<kurbo::Vec2 as core::ops::Sub<kurbo::Vec2>>::sub] (a: kurbo::Vec2, b: kurbo::Vec2) -> (r: kurbo::Vec2) ensures r == vec2_sub(a, b);
pub broadcast axiom fn ax_vec2_subr(a: kurbo::Vec2, b: kurbo::Vec2) ensures #[trigger] a.sub_req(b);
pub uninterp spec fn vec2_hypot(a: kurbo::Vec2) -> f64;
pub assume_specification [kurbo::Vec2::hypot] (a: kurbo::Vec2) -> (r: f64) ensures r == vec2_hypot(a);
pub open spec fn point_lerp(a: kurbo::Point, b: kurbo::Point, t: f64) -> kurbo::Point {
    kurbo::Point { x: a.x.ieee_add(t.ieee_mul(b.x.ieee_sub(a.x))), y: a.y.ieee_add(t.ieee_mul(b.y.ieee_sub(a.y))) }
}
pub assume_specification [kurbo::Point::lerp] (a: kurbo::Point, b: kurbo::Point, t: f64) -> (r: kurbo::Point) ensures r == point_lerp(a, b, t);
pub open spec fn point_eq(a: kurbo::Point, b: kurbo::Point) -> bool { a.x.ieee_eq(b.x) && a.y.ieee_eq(b.y) }
pub assume_specification [<kurbo::Point as PartialEq<kurbo::Point>>::eq] (a: &kurbo::Point, b: &kurbo::Point) -> (r: bool) ensures r == point_eq(*a, *b);

// affine maps: opaque, built from named constructors
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExAffine(kurbo::Affine);
pub uninterp spec fn aff_id() -> kurbo::Affine;
pub uninterp spec fn aff_mul(a: kurbo::Affine, b: kurbo::Affine) -> kurbo::Affine;
pub uninterp spec fn aff_translate(v: kurbo::Vec2) -> kurbo::Affine;
pub uninterp spec fn aff_rotate(th: f64) -> kurbo::Affine;
pub uninterp spec fn aff_scale(x: f64, y: f64) -> kurbo::Affine;
pub uninterp spec fn aff_skew(x: f64, y: f64) -> kurbo::Affine;
pub broadcast axiom fn ax_aff_mulr(a: kurbo::Affine, b: kurbo::Affine) ensures #[trigger] a.mul_req(b);
pub assume_specification [kurbo::Affine::IDENTITY] -> (r: kurbo::Affine) ensures r == aff_id();
pub assume_specification [<kurbo::Affine as core::ops::Mul<kurbo::Affine>>::mul] (a: kurbo::Affine, b: kurbo::Affine) -> (r: kurbo::Affine) ensures r == aff_mul(a, b);
pub assume_specification <V: Into<kurbo::Vec2>> [kurbo::Affine::translate::<V>] (p: V) -> (r: kurbo::Affine) ensures r == aff_translate(into_vec2(p));
pub assume_specification [kurbo::Affine::rotate] (th: f64) -> (r: kurbo::Affine) ensures r == aff_rotate(th);
pub assume_specification [kurbo::Affine::scale_non_uniform] (x: f64, y: f64) -> (r: kurbo::Affine) ensures r == aff_scale(x, y);
pub assume_specification [kurbo::Affine::skew] (x: f64, y: f64) -> (r: kurbo::Affine) ensures r == aff_skew(x, y);

// paths and shapes
#[verifier::external_type_specification]
pub struct ExPathEl(kurbo::PathEl);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExEllipse(kurbo::Ellipse);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRoundedRect(kurbo::RoundedRect);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRadii(kurbo::RoundedRectRadii);
pub uninterp spec fn ellipse_new(c: kurbo::Point, r: kurbo::Vec2, rot: f64) -> kurbo::Ellipse;
pub uninterp spec fn rrect_new(x0: f64, y0: f64, x1: f64, y1: f64, r: f64) -> kurbo::RoundedRect;
#[verifier::external_body]
pub fn w_ellipse_new<C: Into<kurbo::Point>, R: Into<kurbo::Vec2>>(c: C, r: R, rot: f64) -> (e: kurbo::Ellipse) ensures e == ellipse_new(into_point(c), into_vec2(r), rot) { kurbo::Ellipse::new(c, r, rot) }
#[verifier::external_body]
pub fn w_rrect_new(x0: f64, y0: f64, x1: f64, y1: f64, r: f64) -> (e: kurbo::RoundedRect) ensures e == rrect_new(x0, y0, x1, y1, r) { kurbo::RoundedRect::new(x0, y0, x1, y1, r) }
/// the outline of a shape at a tolerance
pub uninterp spec fn shape_els<S>(s: S, tol: f64) -> Seq<kurbo::PathEl>;
#[verifier::external_body]
pub fn w_extend_shape<S: kurbo::Shape>(path: &mut Vec<kurbo::PathEl>, s: S, tol: f64)
    ensures final(path)@ == old(path)@ + shape_els(s, tol)
{ path.extend(s.path_elements(tol)) }
#[verifier::external_body]
pub fn w_extend_els(path: &mut Vec<kurbo::PathEl>, s: &[kurbo::PathEl])
    ensures final(path)@ == old(path)@ + s@
{ path.extend_from_slice(s) }

// strokes
// (the dash list's type is external: smallvec)
#[verifier::external_trait_specification]
pub unsafe trait ExArray { type ExternalTraitSpecificationFor: smallvec::Array; type Item; }
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct ExSmallVec<A: smallvec::Array>(smallvec::SmallVec<A>);
#[verifier::external_type_specification]
pub struct ExStroke(kurbo::Stroke);
#[verifier::external_type_specification]
pub struct ExJoin(kurbo::Join);
#[verifier::external_type_specification]
pub struct ExCap(kurbo::Cap);
pub uninterp spec fn no_dashes() -> kurbo::Dashes;
/// `kurbo::Stroke::new`: round joins and caps, miter limit 4, no dashes
pub open spec fn stroke_new(w: f64) -> kurbo::Stroke {
    kurbo::Stroke { width: w, join: kurbo::Join::Round, miter_limit: 4.0f64, start_cap: kurbo::Cap::Round, end_cap: kurbo::Cap::Round, dash_pattern: no_dashes(), dash_offset: 0.0f64 }
}
pub open spec fn stroke_caps(s: kurbo::Stroke, c: kurbo::Cap) -> kurbo::Stroke { kurbo::Stroke { start_cap: c, end_cap: c, ..s } }
pub open spec fn stroke_join(s: kurbo::Stroke, j: kurbo::Join) -> kurbo::Stroke { kurbo::Stroke { join: j, ..s } }
pub open spec fn stroke_miter(s: kurbo::Stroke, m: f64) -> kurbo::Stroke { kurbo::Stroke { miter_limit: m, ..s } }
pub assume_specification [kurbo::Stroke::new] (w: f64) -> (r: kurbo::Stroke) ensures r == stroke_new(w);
pub assume_specification [kurbo::Stroke::with_caps] (s: kurbo::Stroke, c: kurbo::Cap) -> (r: kurbo::Stroke) ensures r == stroke_caps(s, c);
pub assume_specification [kurbo::Stroke::with_start_cap] (s: kurbo::Stroke, c: kurbo::Cap) -> (r: kurbo::Stroke) ensures r == (kurbo::Stroke { start_cap: c, ..s });
pub assume_specification [kurbo::Stroke::with_end_cap] (s: kurbo::Stroke, c: kurbo::Cap) -> (r: kurbo::Stroke) ensures r == (kurbo::Stroke { end_cap: c, ..s });
pub assume_specification [kurbo::Stroke::with_join] (s: kurbo::Stroke, c: kurbo::Join) -> (r: kurbo::Stroke) ensures r == stroke_join(s, c);
pub assume_specification [kurbo::Stroke::with_miter_limit] (s: kurbo::Stroke, c: f64) -> (r: kurbo::Stroke) ensures r == stroke_miter(s, c);

// ---------------------------------------------------------------------------------------------
// float fields (a proved bridge: Verus does not derive the float type invariant of struct fields)
// ---------------------------------------------------------------------------------------------
pub open spec fn ff_point_x(p: kurbo::Point) -> f64 { p.x }
pub broadcast proof fn tf_point_x(p: kurbo::Point) ensures #[trigger] p.x == ff_point_x(p) { }
pub open spec fn ff_point_y(p: kurbo::Point) -> f64 { p.y }
pub broadcast proof fn tf_point_y(p: kurbo::Point) ensures #[trigger] p.y == ff_point_y(p) { }
pub open spec fn ff_vec2_x(p: kurbo::Vec2) -> f64 { p.x }
pub broadcast proof fn tf_vec2_x(p: kurbo::Vec2) ensures #[trigger] p.x == ff_vec2_x(p) { }
pub open spec fn ff_vec2_y(p: kurbo::Vec2) -> f64 { p.y }
pub broadcast proof fn tf_vec2_y(p: kurbo::Vec2) ensures #[trigger] p.y == ff_vec2_y(p) { }
pub open spec fn ff_size_width(p: kurbo::Size) -> f64 { p.width }
pub broadcast proof fn tf_size_width(p: kurbo::Size) ensures #[trigger] p.width == ff_size_width(p) { }
pub open spec fn ff_size_height(p: kurbo::Size) -> f64 { p.height }
pub broadcast proof fn tf_size_height(p: kurbo::Size) ensures #[trigger] p.height == ff_size_height(p) { }
pub broadcast group group_float_fields { tf_point_x, tf_point_y, tf_vec2_x, tf_vec2_y, tf_size_width, tf_size_height }

/// real roots found by `kurbo::common::solve_cubic` (dependency, deterministic)
pub uninterp spec fn solve_cubic_spec(c0: f64, c1: f64, c2: f64, c3: f64) -> Seq<f64>;
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExArrayVec<T, const N: usize>(arrayvec::ArrayVec<T, N>);
pub uninterp spec fn av_view<T, const N: usize>(a: arrayvec::ArrayVec<T, N>) -> Seq<T>;
pub assume_specification [kurbo::common::solve_cubic] (c0: f64, c1: f64, c2: f64, c3: f64) -> (r: arrayvec::ArrayVec<f64, 3>)
    ensures av_view(r) == solve_cubic_spec(c0, c1, c2, c3);
/// the first root inside [-eps, 1 + eps]
pub open spec fn first_root(s: Seq<f64>, eps: f64) -> Option<f64> decreases s.len() {
    if s.len() == 0 { None }
    else if eps.ieee_neg().ieee_le(s[0]) && s[0].ieee_le(1.0f64.ieee_add(eps)) { Some(s[0]) }
    else { first_root(s.skip(1), eps) }
}
#[verifier::external_body]
pub fn w_find_root(roots: &arrayvec::ArrayVec<f64, 3>, eps: f64) -> (r: Option<f64>)
    ensures r == first_root(av_view(*roots), eps)
{ roots.iter().copied().find(|&r| (-eps..=1.0 + eps).contains(&r)) }
// ---------------------------------------------------------------------------------------------
// numeric casts
// ---------------------------------------------------------------------------------------------
pub uninterp spec fn c_f64(x: f32) -> f64;
pub uninterp spec fn c_f32(x: f64) -> f32;
pub uninterp spec fn c_usize_f64(x: usize) -> f64;
/// saturating float to integer cast
pub uninterp spec fn c_usize(x: f64) -> usize;
/// 2^40: counts (star points, repeater copies) beyond it cannot be represented in memory anyway
pub spec const MAX_COUNT: usize = 0x100_0000_0000;
/// the numeric cast `self as T`
pub trait CastTo<T>: Sized {
    spec fn cast_spec(self) -> T;
    fn cast(self) -> (r: T) ensures r == self.cast_spec();
}
impl CastTo<f64> for f32 { open spec fn cast_spec(self) -> f64 { c_f64(self) } #[verifier::external_body] fn cast(self) -> f64 { self as f64 } }
impl CastTo<f32> for f64 { open spec fn cast_spec(self) -> f32 { c_f32(self) } #[verifier::external_body] fn cast(self) -> f32 { self as f32 } }
impl CastTo<f64> for f64 { open spec fn cast_spec(self) -> f64 { self } fn cast(self) -> f64 { self } }
impl CastTo<f64> for usize { open spec fn cast_spec(self) -> f64 { c_usize_f64(self) } #[verifier::external_body] fn cast(self) -> f64 { self as f64 } }
impl CastTo<usize> for bool { open spec fn cast_spec(self) -> usize { if self { 1 } else { 0 } } #[verifier::external_body] fn cast(self) -> usize { self as usize } }
impl CastTo<usize> for f64 { open spec fn cast_spec(self) -> usize { c_usize(self) } #[verifier::external_body] fn cast(self) -> usize { self as usize } }
pub fn cast_to<T, S: CastTo<T>>(s: S) -> (r: T) ensures r == s.cast_spec() { s.cast() }
/// DOMAIN: counts are at most 2^40
pub broadcast axiom fn ax_count(x: f64) ensures #[trigger] c_usize(x) <= MAX_COUNT;

// ---------------------------------------------------------------------------------------------
// peniko
// ---------------------------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(CS)]
pub struct ExAlphaColor<CS>(peniko::color::AlphaColor<CS>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSrgb(peniko::color::Srgb);
pub uninterp spec fn color_comps(c: peniko::Color) -> [f32; 4];
pub uninterp spec fn color_new(c: [f32; 4]) -> peniko::Color;
pub broadcast axiom fn ax_color_new(c: peniko::Color, k: [f32; 4])
    requires k@ =~= color_comps(c)@ ensures #![trigger color_new(k), color_comps(c)] color_new(k) == c;
/// f32 -> f64 -> f32 is the identity
pub broadcast axiom fn ax_f32_roundtrip(x: f32) ensures #[trigger] c_f32(c_f64(x)) == x;
#[verifier::external_body]
pub fn w_components(c: &peniko::Color) -> (r: [f32; 4]) ensures r == color_comps(*c) { c.components }
#[verifier::external_body]
pub fn w_color(c: [f32; 4]) -> (r: peniko::Color) ensures r == color_new(c) { peniko::Color::new(c) }
pub assume_specification <CS: Clone> [<peniko::color::AlphaColor<CS> as Clone>::clone] (p: &peniko::color::AlphaColor<CS>) -> (r: peniko::color::AlphaColor<CS>) ensures r == *p;

// ---- brushes and gradients
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExGradient(peniko::Gradient);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExColorStop(peniko::ColorStop);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExColorStops(peniko::ColorStops);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(G)]
pub struct ExBrush<I, G>(peniko::Brush<I, G>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct ExImageBrush<D>(peniko::ImageBrush<D>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExImageData(peniko::ImageData);
#[verifier::external_type_specification]
pub struct ExBlendMode(peniko::BlendMode);
#[verifier::external_type_specification]
pub struct ExMix(peniko::Mix);
#[verifier::external_type_specification]
pub struct ExCompose(peniko::Compose);
pub open spec fn blend_mix(m: peniko::Mix) -> peniko::BlendMode { peniko::BlendMode { mix: m, compose: peniko::Compose::SrcOver } }
pub open spec fn blend_compose(c: peniko::Compose) -> peniko::BlendMode { peniko::BlendMode { mix: peniko::Mix::Normal, compose: c } }
pub assume_specification [<peniko::ColorStops as Clone>::clone] (p: &peniko::ColorStops) -> (r: peniko::ColorStops) ensures r == *p;
/// the stops of a stop list, in order
pub uninterp spec fn stops_view(s: peniko::ColorStops) -> Seq<peniko::ColorStop>;
pub broadcast axiom fn ax_stops_default() ensures #[trigger] stops_view(default_of::<peniko::ColorStops>()) == Seq::<peniko::ColorStop>::empty();
pub uninterp spec fn stops_of(s: Seq<peniko::ColorStop>) -> peniko::ColorStops;
/// a stop list is determined by its stops
pub broadcast axiom fn ax_stops_of(s: peniko::ColorStops) ensures #[trigger] stops_of(stops_view(s)) == s;
pub uninterp spec fn stop_new(offset: f32, c: peniko::Color) -> peniko::ColorStop;
#[verifier::external_body]
pub fn w_stop(p: (f32, peniko::Color)) -> (r: peniko::ColorStop) ensures r == stop_new(p.0, p.1) { peniko::ColorStop::from(p) }
#[verifier::external_body]
pub fn w_push_stop(s: &mut peniko::ColorStops, x: peniko::ColorStop) ensures stops_view(*final(s)) == stops_view(*old(s)).push(x) { s.push(x) }
#[verifier::external_body]
pub fn w_stops_default() -> (r: peniko::ColorStops) ensures r == default_of::<peniko::ColorStops>() { peniko::ColorStops::default() }
pub uninterp spec fn grad_radial(c: kurbo::Point, r: f32) -> peniko::Gradient;
pub uninterp spec fn grad_linear(a: kurbo::Point, b: kurbo::Point) -> peniko::Gradient;
pub uninterp spec fn grad_stops(g: peniko::Gradient, s: peniko::ColorStops) -> peniko::Gradient;
pub assume_specification <P: Into<kurbo::Point>> [peniko::Gradient::new_radial] (c: P, r: f32) -> (g: peniko::Gradient) ensures g == grad_radial(into_point(c), r);
pub assume_specification <P: Into<kurbo::Point>, Q: Into<kurbo::Point>> [peniko::Gradient::new_linear] (a: P, b: Q) -> (g: peniko::Gradient) ensures g == grad_linear(into_point(a), into_point(b));
#[verifier::external_body]
pub fn w_set_stops(g: &mut peniko::Gradient, s: peniko::ColorStops) ensures *final(g) == grad_stops(*old(g), s) { g.stops = s; }
pub uninterp spec fn brush_grad(g: peniko::Gradient) -> peniko::Brush;
pub uninterp spec fn brush_solid(c: peniko::Color) -> peniko::Brush;
/// conversions into a brush
pub trait IntoBrush: Sized { spec fn brush_spec(self) -> peniko::Brush; fn into_brush(self) -> (r: peniko::Brush) ensures r == self.brush_spec(); }
impl IntoBrush for peniko::Gradient { open spec fn brush_spec(self) -> peniko::Brush { brush_grad(self) } #[verifier::external_body] fn into_brush(self) -> peniko::Brush { self.into() } }
impl IntoBrush for peniko::Color { open spec fn brush_spec(self) -> peniko::Brush { brush_solid(self) } #[verifier::external_body] fn into_brush(self) -> peniko::Brush { self.into() } }
pub uninterp spec fn color_mul_alpha(c: peniko::Color, a: f32) -> peniko::Color;
pub uninterp spec fn brush_mul_alpha(b: peniko::Brush, a: f32) -> peniko::Brush;
/// multiplication of the opacity
pub trait MulAlpha: Sized { spec fn mul_alpha_spec(self, a: f32) -> Self; fn mul_alpha(self, a: f32) -> (r: Self) ensures r == self.mul_alpha_spec(a); }
impl MulAlpha for peniko::Brush { open spec fn mul_alpha_spec(self, a: f32) -> Self { brush_mul_alpha(self, a) } #[verifier::external_body] fn mul_alpha(self, a: f32) -> Self { self.multiply_alpha(a) } }
impl MulAlpha for peniko::Color { open spec fn mul_alpha_spec(self, a: f32) -> Self { color_mul_alpha(self, a) } #[verifier::external_body] fn mul_alpha(self, a: f32) -> Self { self.multiply_alpha(a) } }
/// peniko: `Brush::multiply_alpha(1.0)` is the identity, the alpha of a solid brush is that of its colour,
/// and multiplying by one leaves a colour as it is
pub broadcast axiom fn ax_brush_one(b: peniko::Brush) ensures #[trigger] brush_mul_alpha(b, 1.0f32) == b;
pub broadcast axiom fn ax_brush_solid(c: peniko::Color, a: f32) ensures brush_mul_alpha(brush_solid(c), a) == #[trigger] brush_solid(color_mul_alpha(c, a));
pub broadcast axiom fn ax_f32_one() ensures #[trigger] c_f32(1.0f64) == 1.0f32;
#[verifier::external_body]
pub fn w_clone_brush(b: &peniko::Brush) -> (r: peniko::Brush) ensures r == *b { b.to_owned() }
pub uninterp spec fn color_transparent() -> peniko::Color;
#[verifier::external_body]
pub fn w_transparent() -> (r: peniko::Color) ensures r == color_transparent() { peniko::Color::TRANSPARENT }
pub broadcast group group_peniko { ax_brush_one, ax_brush_solid, ax_f32_one, ax_stops_default, ax_stops_of }

} // verus!
