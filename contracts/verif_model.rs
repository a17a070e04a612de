//! P03 - P07, P25: the statement-level lemmas over the contracts of runtime/model
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use crate::verif_spec::*;
use crate::runtime::model::*;
use crate::runtime::model::value::*;
use crate::runtime::model::spline::*;
use crate::runtime::model::animated::{near, skew_map};
use kurbo::{Affine, PathEl, Point, Vec2};
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko};

// ---- P03 -------------------------------------------------------------------------------------
/// fixed means: the same value at every frame
pub proof fn p03_value<T: Tween>(v: Value<T>, f: f64, g: f64, d: T)
    requires v.fixed() ensures v.eval_or(f, d) == v.eval_or(g, d)
{ }
/// fixed exactly when no part is animated
pub proof fn p03_parts(t: animated::Transform, s: animated::Star, r: animated::Repeater, k: animated::Stroke, g: animated::Gradient, b: animated::Brush, m: animated::Trim)
    ensures
        t.fixed() <==> !(t.anchor is Animated) && !(t.position is Value && t.position->Value_0 is Animated) && !(t.position is SplitValues && (t.position->SplitValues_0.0 is Animated || t.position->SplitValues_0.1 is Animated))
            && !(t.rotation is Animated) && !(t.scale is Animated) && !(t.skew is Animated) && !(t.skew_angle is Animated),
        s.fixed() <==> !(s.position is Animated) && !(s.inner_radius is Animated) && !(s.inner_roundness is Animated) && !(s.outer_radius is Animated) && !(s.outer_roundness is Animated) && !(s.rotation is Animated) && !(s.points is Animated),
        r.fixed() <==> !(r.copies is Animated) && !(r.offset is Animated) && !(r.anchor_point is Animated) && !(r.position is Animated) && !(r.rotation is Animated) && !(r.scale is Animated) && !(r.start_opacity is Animated) && !(r.end_opacity is Animated),
        k.fixed() <==> !(k.width is Animated),
        g.fixed() <==> !(g.start_point is Animated) && !(g.end_point is Animated) && !(g.stops is Animated),
        b.fixed() <==> !(b is Solid && b->Solid_0 is Animated) && !(b is Gradient && !(b->Gradient_0).fixed()),
        m.fixed() <==> !(m.start is Animated) && !(m.end is Animated) && !(m.offset is Animated),
{ }
pub proof fn p03_transform(t: animated::Transform, f: f64) requires t.fixed() ensures t.eval(f) == t.eval(0.0f64), Transform::Fixed(t.eval(0.0f64)).eval(f) == t.eval(f) { }
pub proof fn p03_repeater(t: animated::Repeater, f: f64) requires t.fixed() ensures t.eval(f) == t.eval(0.0f64), Repeater::Fixed(t.eval(0.0f64)).eval(f) == t.eval(f) { }
pub proof fn p03_stroke(t: animated::Stroke, f: f64) requires t.fixed() ensures t.eval(f) == t.eval(0.0f64), Stroke::Fixed(t.eval(0.0f64)).eval(f) == t.eval(f) { }
pub proof fn p03_trim(t: animated::Trim, f: f64) requires t.fixed() ensures t.eval(f) == t.eval(0.0f64), Trim::Fixed(t.eval(0.0f64)).eval(f) == t.eval(f) { }
pub proof fn p03_gradient(t: animated::Gradient, f: f64) requires t.fixed() ensures t.eval(f) == t.eval(0.0f64) { }
pub proof fn p03_brush(t: animated::Brush, f: f64, alpha: f64) requires t.fixed()
    ensures t.eval(alpha, f) == t.eval(alpha, 0.0f64), Brush::Fixed(t.eval(1.0f64, 0.0f64)).eval(alpha, f) == t.eval(alpha, f)
{
    match t {
        animated::Brush::Solid(v) => {
            let c = v.eval_or(f, color_transparent());
            assert(brush_mul_alpha(brush_solid(c), c_f32(1.0f64)) == brush_solid(color_mul_alpha(c, c_f32(1.0f64))));
            assert(brush_mul_alpha(brush_solid(c), c_f32(alpha)) == brush_solid(color_mul_alpha(c, c_f32(alpha))));
        }
        animated::Brush::Gradient(g) => { p03_gradient(g, f); }
    }
}
pub proof fn lemma_star_angle(s: animated::Star, f: f64, i: nat) requires s.fixed() ensures s.angle(f, i) == s.angle(0.0f64, i) decreases i {
    if i > 0 { lemma_star_angle(s, f, (i - 1) as nat); }
}
pub proof fn p03_star(s: animated::Star, f: f64) requires s.fixed() ensures s.els(f) == s.els(0.0f64) {
    let g = 0.0f64;
    assert forall|i: int| 0 <= i implies s.vertex(f, i) == #[trigger] s.vertex(g, i) && s.handle_in(f, i) == s.handle_in(g, i) && s.handle_out(f, i) == s.handle_out(g, i) by { lemma_star_angle(s, f, i as nat); }
    if s.count(f) > 0 {
        let n = s.total(f);
        assert forall|i: int| 0 <= i < n - 1 implies s.edge(f, i, i + 1) == #[trigger] s.edge(g, i, i + 1) by { assert(s.vertex(f, i) == s.vertex(g, i)); assert(s.vertex(f, i + 1) == s.vertex(g, i + 1)); }
        assert(s.vertex(f, 0) == s.vertex(g, 0)); assert(s.vertex(f, n - 1) == s.vertex(g, n - 1));
        assert(s.edge(f, n - 1, 0) == s.edge(g, n - 1, 0));
        assert(Seq::new((n - 1) as nat, |k: int| s.edge(f, k, k + 1)) =~= Seq::new((n - 1) as nat, |k: int| s.edge(g, k, k + 1)));
    }
    assert(s.els(f) =~= s.els(g));
}

// ---- P04 -------------------------------------------------------------------------------------
/// a zero skew is the identity whatever the axis
pub proof fn p04_no_skew(skew: f64, angle: f64) requires skew == 0.0f64 || skew == 0.0f64.ieee_neg() ensures skew_map(skew, angle) == aff_id() {
    assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector);
    assert(0.0f64.ieee_neg().ieee_eq(0.0f64)) by(bit_vector);
}
/// the composition over the reals: (a b c d e f) maps (x, y) to (a x + c y + e, b x + d y + f)
pub struct RAff { pub a: real, pub b: real, pub c: real, pub d: real, pub e: real, pub f: real }
pub open spec fn r_mul(m: RAff, n: RAff) -> RAff {
    RAff { a: m.a * n.a + m.c * n.b, b: m.b * n.a + m.d * n.b, c: m.a * n.c + m.c * n.d, d: m.b * n.c + m.d * n.d, e: m.a * n.e + m.c * n.f + m.e, f: m.b * n.e + m.d * n.f + m.f }
}
pub open spec fn r_translate(x: real, y: real) -> RAff { RAff { a: 1real, b: 0real, c: 0real, d: 1real, e: x, f: y } }
pub open spec fn r_lin(a: real, b: real, c: real, d: real) -> RAff { RAff { a, b, c, d, e: 0real, f: 0real } }
pub open spec fn r_x(m: RAff, x: real, y: real) -> real { m.a * x + m.c * y + m.e }
pub open spec fn r_y(m: RAff, x: real, y: real) -> real { m.b * x + m.d * y + m.f }
pub proof fn lemma_lin_mul(m: RAff, n: RAff) requires m.e == 0real, m.f == 0real, n.e == 0real, n.f == 0real ensures r_mul(m, n).e == 0real, r_mul(m, n).f == 0real {
    assert(m.a * 0real + m.c * 0real + 0real == 0real) by(nonlinear_arith);
    assert(m.b * 0real + m.d * 0real + 0real == 0real) by(nonlinear_arith);
}
/// whatever the linear parts (rotation, skew, scale): the anchor lands on the position
pub proof fn p04_anchor(ax: real, ay: real, px: real, py: real, rot: RAff, skew: RAff, scale: RAff)
    requires rot.e == 0real, rot.f == 0real, skew.e == 0real, skew.f == 0real, scale.e == 0real, scale.f == 0real
    ensures ({ let m = r_mul(r_mul(r_mul(r_mul(r_translate(px, py), rot), skew), scale), r_translate(-ax, -ay)); r_x(m, ax, ay) == px && r_y(m, ax, ay) == py })
{
    let t = r_translate(px, py);
    let a = r_mul(t, rot);
    assert(a.e == px && a.f == py) by { assert(1real * 0real + 0real * 0real + px == px) by(nonlinear_arith); assert(0real * 0real + 1real * 0real + py == py) by(nonlinear_arith); }
    let b = r_mul(a, skew);
    assert(b.e == px && b.f == py) by { assert(a.a * 0real + a.c * 0real + px == px) by(nonlinear_arith); assert(a.b * 0real + a.d * 0real + py == py) by(nonlinear_arith); }
    let c = r_mul(b, scale);
    assert(c.e == px && c.f == py) by { assert(b.a * 0real + b.c * 0real + px == px) by(nonlinear_arith); assert(b.b * 0real + b.d * 0real + py == py) by(nonlinear_arith); }
    let m = r_mul(c, r_translate(-ax, -ay));
    let (ca, cb, cc, cd) = (c.a, c.b, c.c, c.d);
    assert((ca * 1real + cc * 0real) * ax + (ca * 0real + cc * 1real) * ay + (ca * (-ax) + cc * (-ay) + px) == px) by(nonlinear_arith);
    assert((cb * 1real + cd * 0real) * ax + (cb * 0real + cd * 1real) * ay + (cb * (-ax) + cd * (-ay) + py) == py) by(nonlinear_arith);
}

// ---- P05 -------------------------------------------------------------------------------------
pub open spec fn fin(x: f64) -> bool { !x.ieee_is_nan() && !x.ieee_is_infinite() }
/// std: the euclidean remainder of a finite number by 100 is in [0, 100] (100 itself by rounding)
pub axiom fn ax_rem_100(x: f64) requires fin(x) ensures 0.0f64.ieee_le(f_rem_euclid(x, 100.0f64)), f_rem_euclid(x, 100.0f64).ieee_le(100.0f64);
/// IEEE division by a positive constant is monotone (correct rounding)
pub axiom fn ax_div_mono(x: f64, y: f64) requires x.ieee_le(y) ensures x.ieee_div(100.0f64).ieee_le(y.ieee_div(100.0f64));
pub open spec fn unit(x: f64) -> bool { 0.0f64.ieee_le(x) && x.ieee_le(1.0f64) }
pub proof fn p05_trim(t: fixed::Trim)
    requires fin(t.start), fin(t.end), fin(t.span()), fin(t.lo().ieee_add(t.offset.ieee_mul(100.0f64.ieee_div(360.0f64))))
    ensures
        // nothing / everything
        t.start.ieee_eq(t.end) ==> t.norm() is None,
        t.span().ieee_ge(100.0f64) ==> t.norm() == Some(((0.0f64, 1.0f64), None::<(f64, f64)>)),
        // inside [0,1], in order, at most two pieces that meet the path's ends
        match t.norm() {
            None => true,
            Some((a, None)) => unit(a.0) && unit(a.1) && a.0.ieee_le(a.1),
            Some((a, Some(b))) => unit(a.0) && a.1 == 1.0f64 && b.0 == 0.0f64 && unit(b.1),
        }
{
    let (s, e) = (t.start, t.end);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() && s.ieee_eq(e) ==> s.ieee_sub(e).ieee_lt(1e-9f64) && e.ieee_sub(s).ieee_lt(1e-9f64)) by(bit_vector);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() ==> s.ieee_le(e) || e.ieee_le(s)) by(bit_vector);
    let d = t.span();
    assert(d.ieee_ge(100.0f64) ==> d.ieee_ge(100.0f64.ieee_sub(1e-9f64)) && !d.ieee_lt(1e-9f64)) by(bit_vector);
    assert(unit(0.0f64) && unit(1.0f64) && 0.0f64.ieee_le(1.0f64)) by { assert(0.0f64.ieee_le(0.0f64) && 0.0f64.ieee_le(1.0f64) && 1.0f64.ieee_le(1.0f64)) by(bit_vector); }
    if !d.ieee_lt(1e-9f64) && !d.ieee_ge(100.0f64.ieee_sub(1e-9f64)) {
        ax_rem_100(t.lo().ieee_add(t.offset.ieee_mul(100.0f64.ieee_div(360.0f64))));
        let f = t.from();
        assert(!d.ieee_is_nan() && !d.ieee_lt(1e-9f64) && !d.ieee_ge(100.0f64.ieee_sub(1e-9f64)) && 0.0f64.ieee_le(f) && f.ieee_le(100.0f64) ==>
            f.ieee_le(f.ieee_add(d)) && 0.0f64.ieee_le(f.ieee_add(d)) && f.ieee_add(d).ieee_le(200.0f64)) by(bit_vector);
        lemma_div_unit(f);
        let e1 = t.to();
        if e1.ieee_le(100.0f64) { lemma_div_unit(e1); ax_div_mono(f, e1); }
        else {
            assert(!e1.ieee_le(100.0f64) && e1.ieee_le(200.0f64) ==> 0.0f64.ieee_le(e1.ieee_sub(100.0f64)) && e1.ieee_sub(100.0f64).ieee_le(100.0f64)) by(bit_vector);
            lemma_div_unit(e1.ieee_sub(100.0f64));
        }
    }
}
pub proof fn lemma_div_unit(x: f64) requires 0.0f64.ieee_le(x), x.ieee_le(100.0f64) ensures unit(x.ieee_div(100.0f64)) {
    assert(0.0f64.ieee_le(x) && x.ieee_le(100.0f64) ==> 0.0f64.ieee_le(x.ieee_div(100.0f64)) && x.ieee_div(100.0f64).ieee_le(1.0f64)) by(bit_vector);
}
/// the numbers of the trim and the position its range starts from are finite
pub open spec fn sane(t: fixed::Trim) -> bool { fin(t.start) && fin(t.end) && fin(t.lo().ieee_add(t.offset.ieee_mul(100.0f64.ieee_div(360.0f64)))) }
/// what any way of writing the normalisation may rely on: minimum and maximum, and that comparisons of numbers are total
pub proof fn lemma_sane(t: fixed::Trim)
    requires sane(t)
    ensures
        t.start.ieee_lt(t.end) == !t.start.ieee_ge(t.end), t.start.ieee_le(t.end) == !t.start.ieee_gt(t.end), t.start.ieee_gt(t.end) == t.end.ieee_lt(t.start), t.start.ieee_ge(t.end) == t.end.ieee_le(t.start),
        t.start.ieee_eq(t.end) == (t.start.ieee_le(t.end) && t.end.ieee_le(t.start)), t.start.ieee_lt(t.end) ==> t.start.ieee_le(t.end), t.end.ieee_lt(t.start) ==> t.end.ieee_le(t.start), t.start.ieee_le(t.end) || t.end.ieee_le(t.start),
        t.start.ieee_eq(t.end) ==> t.start.ieee_sub(t.start).ieee_lt(1e-9f64) && t.end.ieee_sub(t.end).ieee_lt(1e-9f64) && t.start.ieee_sub(t.end).ieee_lt(1e-9f64) && t.end.ieee_sub(t.start).ieee_lt(1e-9f64),
        t.start.ieee_lt(t.end) ==> f_min(t.start, t.end) == t.start && f_max(t.start, t.end) == t.end && f_min(t.end, t.start) == t.start && f_max(t.end, t.start) == t.end,
        t.end.ieee_lt(t.start) ==> f_min(t.start, t.end) == t.end && f_max(t.start, t.end) == t.start && f_min(t.end, t.start) == t.end && f_max(t.end, t.start) == t.start,
        f_min(t.start, t.end) == t.start || f_min(t.start, t.end) == t.end, f_max(t.start, t.end) == t.start || f_max(t.start, t.end) == t.end,
        f_min(t.end, t.start) == t.start || f_min(t.end, t.start) == t.end, f_max(t.end, t.start) == t.start || f_max(t.end, t.start) == t.end,
        t.span().ieee_lt(1e-9f64) == !t.span().ieee_ge(1e-9f64), t.span().ieee_gt(1e-9f64) == !t.span().ieee_le(1e-9f64),
        t.span().ieee_ge(100.0f64.ieee_sub(1e-9f64)) == !t.span().ieee_lt(100.0f64.ieee_sub(1e-9f64)),
        t.to().ieee_le(100.0f64) == !t.to().ieee_gt(100.0f64),
{
    let (s, e) = (t.start, t.end);
    ax_min(s, e); ax_min(e, s); ax_max(s, e); ax_max(e, s);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() ==> (s.ieee_le(e) || e.ieee_le(s)) && s.ieee_le(e) == !s.ieee_gt(e) && s.ieee_lt(e) == !s.ieee_ge(e) && s.ieee_gt(e) == e.ieee_lt(s) && s.ieee_ge(e) == e.ieee_le(s)
        && (s.ieee_eq(e) <==> s.ieee_le(e) && e.ieee_le(s)) && (s.ieee_lt(e) ==> s.ieee_le(e)) && (e.ieee_lt(s) ==> e.ieee_le(s)) && !(s.ieee_lt(e) && e.ieee_le(s)) && !(e.ieee_lt(s) && s.ieee_le(e))
        && s.ieee_sub(s).ieee_lt(1e-9f64) && e.ieee_sub(e).ieee_lt(1e-9f64)) by(bit_vector);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() && s.ieee_eq(e) ==> s.ieee_sub(e).ieee_lt(1e-9f64) && e.ieee_sub(s).ieee_lt(1e-9f64)) by(bit_vector);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() ==> !s.ieee_sub(e).ieee_is_nan() && !e.ieee_sub(s).ieee_is_nan()) by(bit_vector);
    let d = t.span();
    assert(!d.ieee_is_nan() ==> d.ieee_lt(1e-9f64) == !d.ieee_ge(1e-9f64) && d.ieee_gt(1e-9f64) == !d.ieee_le(1e-9f64) && d.ieee_ge(100.0f64.ieee_sub(1e-9f64)) == !d.ieee_lt(100.0f64.ieee_sub(1e-9f64))) by(bit_vector);
    ax_rem_100(t.lo().ieee_add(t.offset.ieee_mul(100.0f64.ieee_div(360.0f64))));
    let f = t.from();
    assert(!d.ieee_is_nan() && 0.0f64.ieee_le(f) && f.ieee_le(100.0f64) ==> !f.ieee_add(d).ieee_is_nan()) by(bit_vector);
    let w = t.to();
    assert(!w.ieee_is_nan() ==> w.ieee_le(100.0f64) == !w.ieee_gt(100.0f64)) by(bit_vector);
}
/// `f64::min` and `f64::max` give the smaller and the larger of two numbers
pub axiom fn ax_min(a: f64, b: f64)
    requires !a.ieee_is_nan(), !b.ieee_is_nan()
    ensures f_min(a, b) == (if a.ieee_lt(b) { a } else if b.ieee_lt(a) { b } else { f_min(a, b) }), f_min(a, b) == a || f_min(a, b) == b;
pub axiom fn ax_max(a: f64, b: f64)
    requires !a.ieee_is_nan(), !b.ieee_is_nan()
    ensures f_max(a, b) == (if a.ieee_lt(b) { b } else if b.ieee_lt(a) { a } else { f_max(a, b) }), f_max(a, b) == a || f_max(a, b) == b;
/// swapping start and end changes nothing
pub proof fn p05_swap(t: fixed::Trim, u: fixed::Trim)
    requires fin(t.start), fin(t.end), u.start == t.end, u.end == t.start, u.offset == t.offset
    ensures t.norm() == u.norm()
{
    let (s, e) = (t.start, t.end);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() ==> s.ieee_le(e) || e.ieee_le(s)) by(bit_vector);
    assert(!s.ieee_is_nan() && !s.ieee_is_infinite() && !e.ieee_is_nan() && !e.ieee_is_infinite() && s.ieee_le(e) && e.ieee_le(s) ==> s.ieee_sub(e).ieee_lt(1e-9f64) && e.ieee_sub(s).ieee_lt(1e-9f64)) by(bit_vector);
}

// ---- P06 -------------------------------------------------------------------------------------
/// shape of the path of n >= 1 vertices
pub proof fn p06_path(p: Seq<Point>, closed: bool)
    requires p.len() > 0, p.len() % 3 == 0
    ensures ({ let n = (p.len() / 3) as int; let e = path_of(p, closed);
        &&& e.len() == n + (if closed { 2int } else { 0 })
        &&& e[0] == PathEl::MoveTo(p[0])
        &&& forall|i: int| 1 <= i < n ==> #[trigger] e[i] == segment(p, i - 1, i)
        &&& closed ==> e[n] == segment(p, n - 1, 0) && e[n + 1] == PathEl::ClosePath })
{ }
/// every piece ends at its vertex, with the tangents of its two vertices (each relative to its vertex)
pub proof fn p06_segment(p: Seq<Point>, i: int, j: int)
    ensures match segment(p, i, j) {
        PathEl::LineTo(q) => q == p[3 * j] && point_eq(plus(p[3 * i + 2], p[3 * i]), p[3 * i]) && point_eq(plus(p[3 * j + 1], p[3 * j]), p[3 * j]),
        PathEl::CurveTo(a, b, q) => q == p[3 * j] && a == plus(p[3 * i + 2], p[3 * i]) && b == plus(p[3 * j + 1], p[3 * j]),
        _ => false,
    }
{ }
/// zero tangents give a straight line
pub proof fn p06_straight(p: Seq<Point>, i: int, j: int)
    requires fin(p[3 * i].x), fin(p[3 * i].y), fin(p[3 * j].x), fin(p[3 * j].y),
        p[3 * i + 2].x.ieee_is_zero(), p[3 * i + 2].y.ieee_is_zero(), p[3 * j + 1].x.ieee_is_zero(), p[3 * j + 1].y.ieee_is_zero()
    ensures segment(p, i, j) == PathEl::LineTo(p[3 * j])
{
    lemma_zero_add(p[3 * i + 2].x, p[3 * i].x); lemma_zero_add(p[3 * i + 2].y, p[3 * i].y);
    lemma_zero_add(p[3 * j + 1].x, p[3 * j].x); lemma_zero_add(p[3 * j + 1].y, p[3 * j].y);
}
pub proof fn lemma_zero_add(z: f64, x: f64) requires z.ieee_is_zero(), fin(x) ensures z.ieee_add(x).ieee_eq(x) {
    assert(z.ieee_is_zero() && !x.ieee_is_nan() && !x.ieee_is_infinite() ==> z.ieee_add(x).ieee_eq(x)) by(bit_vector);
}

// ---- P07 -------------------------------------------------------------------------------------
/// exactly the declared stops, or none
pub proof fn p07_stops(c: animated::ColorStops, f: f64)
    ensures c.complete(f) ==> c.stops_seq(f).len() == c.count,
        !c.complete(f) ==> stops_view(c.eval(f)).len() == 0,
        c.complete(f) && c.frames@[c.ix0(f)].hold ==> forall|j: int| c.chan(f, j) == c.values@[c.ix0(f)]@[j]
{
    assert(0.0f64.ieee_le(0.0f64)) by(bit_vector);
}

// ---- P30 -------------------------------------------------------------------------------------
/// a rectangle spans its size from its left and top, half a size away from its position, with its corner radius
pub proof fn p30_rect(r: animated::Rect, f: f64)
    ensures ({ let p = r.position.eval(f); let s = r.size.eval(f);
        let (x, y) = (p.x.ieee_sub(s.width.ieee_mul(0.5f64)), p.y.ieee_sub(s.height.ieee_mul(0.5f64)));
        r.eval(f) == rrect_new(x, y, x.ieee_add(s.width), y.ieee_add(s.height), r.corner_radius.eval(f)) })
{ }
/// over the reals that is the rectangle centred at the position
pub proof fn p30_centre(p: real, w: real)
    ensures ({ let x = p - w * 0.5real; (x + (x + w)) * 0.5real == p && (x + w) - x == w && x + w == p + w * 0.5real })
{ }
/// an ellipse is centred at its position with half its size as radii, unrotated
pub proof fn p30_ellipse(e: animated::Ellipse, f: f64)
    ensures e.eval(f) == ellipse_new(e.position.eval(f), Vec2 { x: e.size.eval(f).width.ieee_mul(0.5f64), y: e.size.eval(f).height.ieee_mul(0.5f64) }, 0.0f64)
{ }
/// each kind of geometry contributes its own outline at the frame
pub proof fn p30_kinds(g: Geometry, f: f64)
    ensures match g {
        Geometry::Fixed(p) => g.els(f) == p@,
        Geometry::Rect(r) => g.els(f) == shape_els(r.eval(f), 0.1f64),
        Geometry::Ellipse(e) => g.els(f) == shape_els(e.eval(f), 0.1f64),
        Geometry::Spline(s) => g.els(f) == s.els(f),
        Geometry::Star(s) => g.els(f) == s.els(f),
    }
{ }

// ---- P25 -------------------------------------------------------------------------------------
/// one closed sub-path that starts at vertex 0, visits every vertex in order and comes back
pub proof fn p25_star(s: animated::Star, f: f64)
    ensures ({ let e = s.els(f); let n = s.total(f);
        &&& s.count(f) == 0 ==> e.len() == 0
        &&& s.count(f) > 0 ==> n == (if s.is_polygon { s.count(f) as int } else { 2 * s.count(f) }) && (e.len() == n + 1 || e.len() == n + 2)
              && e[0] == PathEl::MoveTo(s.vertex(f, 0)) && e.last() == PathEl::ClosePath
              && (forall|i: int| 1 <= i < n ==> ends_at(#[trigger] e[i], s.vertex(f, i)))
              && (e.len() == n + 2 ==> ends_at(e[n], s.vertex(f, 0))) })
{ }
pub open spec fn ends_at(e: PathEl, v: Point) -> bool { match e { PathEl::LineTo(q) => q == v, PathEl::CurveTo(_, _, q) => q == v, _ => false } }
/// zero roundness gives straight edges
pub proof fn p25_straight(s: animated::Star, f: f64, i: int, j: int)
    requires s.roundness(f, i).ieee_is_zero(), s.roundness(f, j).ieee_is_zero(),
        fin(s.vertex(f, i).x), fin(s.vertex(f, i).y), fin(s.vertex(f, j).x), fin(s.vertex(f, j).y)
    ensures s.edge(f, i, j) == PathEl::LineTo(s.vertex(f, j))
{
    lemma_small(s.roundness(f, i)); lemma_small(s.roundness(f, j));
    lemma_self(s.vertex(f, i).x); lemma_self(s.vertex(f, i).y); lemma_self(s.vertex(f, j).x); lemma_self(s.vertex(f, j).y);
}
pub proof fn lemma_small(x: f64) requires x.ieee_is_zero() ensures !f_abs(x).ieee_gt(1e-6f64) {
    assert(x.ieee_is_zero() ==> !x.ieee_gt(1e-6f64) && !x.ieee_neg().ieee_gt(1e-6f64)) by(bit_vector);
}
pub proof fn lemma_self(x: f64) requires fin(x) ensures f_abs(x.ieee_sub(x)).ieee_lt(1e-6f64) {
    assert(!x.ieee_is_nan() && !x.ieee_is_infinite() ==> x.ieee_sub(x).ieee_lt(1e-6f64) && x.ieee_sub(x).ieee_neg().ieee_lt(1e-6f64)) by(bit_vector);
}
/// the vertices' radii alternate, outer first
pub proof fn p25_radius(s: animated::Star, f: f64, i: int)
    requires 0 <= i ensures s.radius(f, i) == (if s.is_polygon || i % 2 == 0 { s.outer_radius.eval(f) } else { s.inner_radius.eval(f) })
{ }
}
