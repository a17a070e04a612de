//! The abstract render machine: what `Renderer` must send to its sink, as functions of the composition.
//! Also the trusted contracts of the dependencies only rendering uses.
#![allow(unused, missing_docs)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::verif_spec::*;
use crate::runtime::Composition;
use crate::runtime::model::*;
use kurbo::{Affine, PathEl, Point};
use core::ops::Range;
verus! {
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko};

// ---------------------------------------------------------------------------------------------
// trusted: std, kurbo, peniko
// ---------------------------------------------------------------------------------------------
pub assume_specification <Idx: Clone> [<Range<Idx> as Clone>::clone] (p: &Range<Idx>) -> (r: Range<Idx>) ensures cloned(p.start, r.start), cloned(p.end, r.end);
pub assume_specification [<kurbo::Stroke as Clone>::clone] (p: &kurbo::Stroke) -> (r: kurbo::Stroke) ensures r == *p;
pub assume_specification <I: Clone, G: Clone> [<peniko::Brush<I, G> as Clone>::clone] (p: &peniko::Brush<I, G>) -> (r: peniko::Brush<I, G>) ensures r == *p;
pub assume_specification [<Affine as Clone>::clone] (p: &Affine) -> (r: Affine) ensures r == *p;
/// the comparison of floats
pub broadcast axiom fn ax_f64_pcmp_obeys() ensures #[trigger] <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f64_pcmp(a: f64, b: f64) ensures #[trigger] a.partial_cmp_spec(&b) == (
    if a.ieee_lt(b) { Some(core::cmp::Ordering::Less) } else if a.ieee_gt(b) { Some(core::cmp::Ordering::Greater) } else if a.ieee_eq(b) { Some(core::cmp::Ordering::Equal) } else { None });
pub proof fn lemma_le(a: f64, b: f64) ensures a.ieee_le(b) <==> a.ieee_lt(b) || a.ieee_eq(b), a.ieee_eq(b) ==> !a.ieee_gt(b) && !a.ieee_lt(b) {
    assert(a.ieee_le(b) <==> a.ieee_lt(b) || a.ieee_eq(b)) by(bit_vector);
    assert(a.ieee_eq(b) ==> !a.ieee_gt(b) && !a.ieee_lt(b)) by(bit_vector);
}
pub broadcast axiom fn ax_string_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();

pub uninterp spec fn aff_eq(a: Affine, b: Affine) -> bool;
pub broadcast axiom fn ax_aff_eq(a: Affine, b: Affine) ensures #[trigger] a.eq_spec(&b) == aff_eq(a, b);
pub broadcast axiom fn ax_aff_obeys() ensures #[trigger] <Affine as PartialEqSpec<Affine>>::obeys_eq_spec();
pub assume_specification [<Affine as PartialEq<Affine>>::eq] (a: &Affine, b: &Affine) -> (r: bool) ensures r == aff_eq(*a, *b);

#[verifier::external_type_specification]
pub struct ExKRect(kurbo::Rect);
pub assume_specification [kurbo::Rect::new] (x0: f64, y0: f64, x1: f64, y1: f64) -> (r: kurbo::Rect) ensures r == (kurbo::Rect { x0, y0, x1, y1 });
/// the blend mode `b.into()`
pub uninterp spec fn into_blend<B>(b: B) -> peniko::BlendMode;
pub broadcast axiom fn ax_blend_id(b: peniko::BlendMode) ensures #[trigger] into_blend::<peniko::BlendMode>(b) == b;
pub broadcast axiom fn ax_blend_mix(b: peniko::Mix) ensures #[trigger] into_blend::<peniko::Mix>(b) == blend_mix(b);

/// what a sink is given to fill or clip to
pub enum ShapeV { Rect(kurbo::Rect), Els(Seq<PathEl>) }
pub uninterp spec fn shape_v<S>(s: S) -> ShapeV;
pub broadcast axiom fn ax_shape_rect(r: kurbo::Rect) ensures #[trigger] shape_v::<kurbo::Rect>(r) == ShapeV::Rect(r);
pub broadcast axiom fn ax_shape_els(r: &[PathEl]) ensures #[trigger] shape_v::<&[PathEl]>(r) == ShapeV::Els(r@);
/// outlines of ellipses and rounded rectangles begin with a MoveTo
pub broadcast axiom fn ax_outline_ellipse(s: kurbo::Ellipse, tol: f64) ensures path_ok(#[trigger] shape_els(s, tol));
pub broadcast axiom fn ax_outline_rrect(s: kurbo::RoundedRect, tol: f64) ensures path_ok(#[trigger] shape_els(s, tol));

// paths and segments
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBezPath(kurbo::BezPath);
#[verifier::external_type_specification]
pub struct ExPathSeg(kurbo::PathSeg);
#[verifier::external_type_specification]
pub struct ExLine(kurbo::Line);
#[verifier::external_type_specification]
pub struct ExQuadBez(kurbo::QuadBez);
pub uninterp spec fn bez_els(p: kurbo::BezPath) -> Seq<PathEl>;
/// the segments of a path (kurbo)
pub uninterp spec fn path_segs(els: Seq<PathEl>) -> Seq<kurbo::PathSeg>;
pub uninterp spec fn seg_len(s: kurbo::PathSeg, acc: f64) -> f64;
pub uninterp spec fn seg_inv(s: kurbo::PathSeg, len: f64, acc: f64) -> f64;
pub uninterp spec fn seg_sub(s: kurbo::PathSeg, a: f64, b: f64) -> kurbo::PathSeg;
pub open spec fn seg_start(s: kurbo::PathSeg) -> Point { match s { kurbo::PathSeg::Line(l) => l.p0, kurbo::PathSeg::Quad(q) => q.p0, kurbo::PathSeg::Cubic(c) => c.p0 } }
pub open spec fn seg_end(s: kurbo::PathSeg) -> Point { match s { kurbo::PathSeg::Line(l) => l.p1, kurbo::PathSeg::Quad(q) => q.p2, kurbo::PathSeg::Cubic(c) => c.p3 } }
pub open spec fn opt_point_eq(a: Option<Point>, b: Option<Point>) -> bool { match (a, b) { (Some(x), Some(y)) => point_eq(x, y), (None, None) => true, _ => false } }
#[verifier::external_body]
pub fn w_opt_point_eq(a: Option<Point>, b: Option<Point>) -> (r: bool) ensures r == opt_point_eq(a, b) { a == b }
/// the sum of the lengths in order
pub uninterp spec fn segs_len(s: Seq<kurbo::PathSeg>, acc: f64) -> f64;
pub assume_specification [<kurbo::PathSeg as kurbo::ParamCurveArclen>::arclen] (s: &kurbo::PathSeg, acc: f64) -> (r: f64) ensures r == seg_len(*s, acc);
pub assume_specification [<kurbo::PathSeg as kurbo::ParamCurveArclen>::inv_arclen] (s: &kurbo::PathSeg, len: f64, acc: f64) -> (r: f64) ensures r == seg_inv(*s, len, acc);
pub assume_specification [<kurbo::PathSeg as kurbo::ParamCurve>::subsegment] (s: &kurbo::PathSeg, r: Range<f64>) -> (o: kurbo::PathSeg) ensures o == seg_sub(*s, r.start, r.end);
pub assume_specification [<kurbo::PathSeg as kurbo::ParamCurve>::start] (s: &kurbo::PathSeg) -> (o: Point) ensures o == seg_start(*s);
pub assume_specification [<kurbo::PathSeg as kurbo::ParamCurve>::end] (s: &kurbo::PathSeg) -> (o: Point) ensures o == seg_end(*s);
pub assume_specification [kurbo::BezPath::new] () -> (r: kurbo::BezPath) ensures bez_els(r) == Seq::<PathEl>::empty();
pub assume_specification <P: Into<Point>> [kurbo::BezPath::move_to::<P>] (p: &mut kurbo::BezPath, q: P) ensures bez_els(*final(p)) == bez_els(*old(p)).push(PathEl::MoveTo(into_point(q)));
/// line_to and the like panic on an empty path
pub assume_specification <P: Into<Point>> [kurbo::BezPath::line_to::<P>] (p: &mut kurbo::BezPath, q: P) requires bez_els(*old(p)).len() > 0 ensures bez_els(*final(p)) == bez_els(*old(p)).push(PathEl::LineTo(into_point(q)));
pub assume_specification <P: Into<Point>> [kurbo::BezPath::quad_to::<P>] (p: &mut kurbo::BezPath, a: P, q: P) requires bez_els(*old(p)).len() > 0 ensures bez_els(*final(p)) == bez_els(*old(p)).push(PathEl::QuadTo(into_point(a), into_point(q)));
pub assume_specification <P: Into<Point>> [kurbo::BezPath::curve_to::<P>] (p: &mut kurbo::BezPath, a: P, b: P, q: P) requires bez_els(*old(p)).len() > 0 ensures bez_els(*final(p)) == bez_els(*old(p)).push(PathEl::CurveTo(into_point(a), into_point(b), into_point(q)));
pub assume_specification [kurbo::BezPath::elements] (p: &kurbo::BezPath) -> (r: &[PathEl]) ensures r@ == bez_els(*p);
/// collecting into a BezPath, and taking segments, panics when the first element is not a MoveTo
#[verifier::external_body]
pub fn w_collect_path(s: &[PathEl]) -> (r: kurbo::BezPath) requires path_ok(s@) ensures bez_els(r) == s@ { s.iter().cloned().collect() }
#[verifier::external_body]
pub fn w_collect_segs(p: &kurbo::BezPath) -> (r: Vec<kurbo::PathSeg>) requires path_ok(bez_els(*p)) ensures r@ == path_segs(bez_els(*p)) { p.segments().collect() }
#[verifier::external_body]
pub fn w_sum_arclen(s: &[kurbo::PathSeg], acc: f64) -> (r: f64) ensures r == segs_len(s@, acc) { use kurbo::ParamCurveArclen; s.iter().map(|s| s.arclen(acc)).sum() }
/// `[a, b].into_iter().flatten()`
pub open spec fn flat2<T>(a: [Option<T>; 2]) -> Seq<T> {
    (match a@[0] { Some(x) => seq![x], None => Seq::empty() }) + (match a@[1] { Some(x) => seq![x], None => Seq::empty() })
}
#[verifier::external_body]
pub fn w_flatten2<T>(a: [Option<T>; 2]) -> (r: Vec<T>) ensures r@ == flat2(a) { a.into_iter().flatten().collect() }
/// `a.extend(b.drain(from..))`
#[verifier::external_body]
pub fn w_move_tail<T>(a: &mut Vec<T>, b: &mut Vec<T>, from: usize) requires from <= old(b)@.len()
    ensures final(a)@ == old(a)@ + old(b)@.skip(from as int), final(b)@ == old(b)@.take(from as int)
{ a.extend(b.drain(from..)); }
/// `Range::len`
#[verifier::external_body]
pub fn w_range_len(r: &Range<usize>) -> (n: usize) ensures n == (if r.start <= r.end { r.end - r.start } else { 0 }) { r.len() }
/// the position of the last of n elements (`last_mut().unwrap()` panics on none)
pub fn w_last(n: usize) -> (r: usize) requires n > 0 ensures r == n - 1 { n - 1 }
pub broadcast group group_render { ax_f64_pcmp_obeys, ax_f64_pcmp, ax_string_key, ax_aff_eq, ax_aff_obeys, ax_blend_id, ax_blend_mix, ax_shape_rect, ax_shape_els, ax_outline_ellipse, ax_outline_rrect }

// ---------------------------------------------------------------------------------------------
// the commands
// ---------------------------------------------------------------------------------------------
pub enum Ev {
    PushLayer { blend: peniko::BlendMode, alpha: f32, t: Affine, shape: ShapeV },
    PushClip { t: Affine, shape: ShapeV },
    Pop,
    Draw { stroke: Option<kurbo::Stroke>, t: Affine, brush: peniko::Brush, shape: ShapeV },
    Begin { name: Seq<char>, index: int },
    End,
}

// ---------------------------------------------------------------------------------------------
// the batch of one shape layer
// ---------------------------------------------------------------------------------------------
/// a piece of geometry and its transform
pub struct Geo { pub els: Seq<PathEl>, pub t: Affine }
/// a fill or stroke of the pieces lo..hi
pub struct Drw { pub stroke: Option<kurbo::Stroke>, pub brush: peniko::Brush, pub alpha: f64, pub lo: int, pub hi: int }
pub struct Bat { pub geos: Seq<Geo>, pub draws: Seq<Drw>, pub drawn: int }
pub open spec fn path_ok(els: Seq<PathEl>) -> bool { els.len() == 0 || els[0] is MoveTo }
pub open spec fn bat_new() -> Bat { Bat { geos: Seq::empty(), draws: Seq::empty(), drawn: 0 } }

pub open spec fn bat_geometry(b: Bat, els: Seq<PathEl>, t: Affine, gs: int) -> Bat {
    let n = b.geos.len() as int;
    if b.drawn < n && gs < n && aff_eq(b.geos[n - 1].t, t) {
        Bat { geos: b.geos.update(n - 1, Geo { els: b.geos[n - 1].els + els, t: b.geos[n - 1].t }), ..b }
    } else {
        Bat { geos: b.geos.push(Geo { els, t }), ..b }
    }
}
pub open spec fn draw_of(d: Draw, alpha: f64, lo: int, hi: int, frame: f64) -> Drw {
    Drw {
        stroke: match d.stroke { Some(s) => Some(s.eval(frame)), None => None },
        brush: d.brush.eval(1.0f64, frame),
        alpha: alpha.ieee_mul(d.opacity.eval(frame)).ieee_div(100.0f64),
        lo, hi,
    }
}
pub open spec fn bat_draw(b: Bat, d: Draw, alpha: f64, gs: int, frame: f64) -> Bat {
    Bat { geos: b.geos, draws: b.draws.push(draw_of(d, alpha, gs, b.geos.len() as int, frame)), drawn: b.geos.len() as int }
}
/// every piece of `tail` by `copies` copies, piece by piece
pub open spec fn rep_geos(tail: Seq<Geo>, r: fixed::Repeater) -> Seq<Geo> {
    Seq::new((tail.len() * r.copies) as nat, |k: int| Geo { els: tail[k / (r.copies as int)].els, t: aff_mul(tail[k / (r.copies as int)].t, r.map((k % (r.copies as int)) as usize)) })
}
/// the opacity factor of copy i
pub open spec fn rep_alpha(r: fixed::Repeater, i: int) -> f64 {
    let s = r.start_opacity.ieee_div(100.0f64);
    let e = r.end_opacity.ieee_div(100.0f64);
    let d = if r.copies > 1 { e.ieee_sub(s).ieee_div(c_usize_f64(r.copies)) } else { 0.0f64 };
    s.ieee_add(d.ieee_mul(c_usize_f64(i as usize)))
}
pub open spec fn rep_draw(d: Drw, r: fixed::Repeater, gs: int, i: int) -> Drw {
    let lo = gs + (d.lo - gs) * r.copies;
    Drw { stroke: d.stroke, brush: d.brush, alpha: d.alpha.ieee_mul(rep_alpha(r, i)), lo, hi: lo + (d.hi - d.lo) * r.copies }
}
/// one round of the paints of `tail` per copy index with a positive opacity factor
pub open spec fn rep_draws(tail: Seq<Drw>, r: fixed::Repeater, gs: int, n: int) -> Seq<Drw> decreases n {
    if n <= 0 { Seq::empty() } else {
        rep_draws(tail, r, gs, n - 1) + (if rep_alpha(r, n - 1).ieee_le(0.0f64) { Seq::empty() } else { Seq::new(tail.len(), |k: int| rep_draw(tail[k], r, gs, n - 1)) })
    }
}
pub open spec fn bat_repeat(b: Bat, r: fixed::Repeater, gs: int, ds: int) -> Bat {
    let geos = b.geos.take(gs) + rep_geos(b.geos.skip(gs), r);
    Bat { geos, draws: b.draws.take(ds) + rep_draws(b.draws.skip(ds), r, gs, r.copies as int), drawn: geos.len() as int }
}
// ---- trims: cutting a path by arc length
pub spec const ACC: f64 = 0.1f64;
/// scanning state: elements so far, length before the next segment, end of the last segment, whether a MoveTo is due, past the end
pub struct Cut { pub acc: Seq<PathEl>, pub cur: f64, pub at: Option<Point>, pub mv: bool, pub done: bool }
pub open spec fn cut_acc(s: kurbo::PathSeg) -> f64 { f_max(0.1f64, seg_len(s, 0.1f64).ieee_mul(1e-9f64)) }
/// the part of the segment at `cur`.. that lies within from..to, in curve parameters
pub open spec fn cut_t0(s: kurbo::PathSeg, cur: f64, from: f64) -> f64 {
    if cur.ieee_lt(from) { f_clamp(seg_inv(s, from.ieee_sub(cur), cut_acc(s)), 0.0f64, 1.0f64) } else { 0.0f64 }
}
pub open spec fn cut_t1(s: kurbo::PathSeg, cur: f64, to: f64) -> f64 {
    if cur.ieee_add(seg_len(s, 0.1f64)).ieee_gt(to) { f_clamp(seg_inv(s, to.ieee_sub(cur), cut_acc(s)), 0.0f64, 1.0f64) } else { 1.0f64 }
}
pub open spec fn seg_el(s: kurbo::PathSeg) -> PathEl {
    match s { kurbo::PathSeg::Line(l) => PathEl::LineTo(l.p1), kurbo::PathSeg::Quad(q) => PathEl::QuadTo(q.p1, q.p2), kurbo::PathSeg::Cubic(c) => PathEl::CurveTo(c.p1, c.p2, c.p3) }
}
/// a segment that does not continue the one before begins a new sub-path
pub open spec fn cut_seg(c: Cut, s: kurbo::PathSeg) -> Cut { if c.done { c } else { Cut { mv: c.mv || !opt_point_eq(c.at, Some(seg_start(s))), at: Some(seg_end(s)), ..c } } }
pub open spec fn cut_step(c0: Cut, s: kurbo::PathSeg, from: f64, to: f64) -> Cut {
    let c = cut_seg(c0, s);
    let end = c.cur.ieee_add(seg_len(s, 0.1f64));
    if c.done { c }
    else if end.ieee_lt(from.ieee_sub(1e-9f64)) { Cut { cur: end, ..c } }
    else if c.cur.ieee_gt(to.ieee_add(1e-9f64)) { Cut { done: true, ..c } }
    else {
        let t0 = cut_t0(s, c.cur, from); let t1 = cut_t1(s, c.cur, to);
        if t1.ieee_gt(t0.ieee_add(1e-9f64)) {
            let sub = seg_sub(s, t0, t1);
            Cut { acc: (if c.mv { c.acc.push(PathEl::MoveTo(seg_start(sub))) } else { c.acc }).push(seg_el(sub)), cur: end, mv: false, ..c }
        } else { Cut { cur: end, ..c } }
    }
}
pub open spec fn cut(segs: Seq<kurbo::PathSeg>, n: int, from: f64, to: f64, acc: Seq<PathEl>) -> Cut decreases n {
    if n <= 0 { Cut { acc, cur: 0.0f64, at: None, mv: true, done: false } } else { cut_step(cut(segs, n - 1, from, to, acc), segs[n - 1], from, to) }
}
pub open spec fn cut_range(segs: Seq<kurbo::PathSeg>, range: (f64, f64), acc: Seq<PathEl>) -> Seq<PathEl> {
    let total = segs_len(segs, 0.1f64);
    cut(segs, segs.len() as int, range.0.ieee_mul(total), range.1.ieee_mul(total), acc).acc
}
pub open spec fn trim_els(els: Seq<PathEl>, t: fixed::Trim) -> Seq<PathEl> {
    match t.norm() {
        None => Seq::empty(),
        Some(x) => if trim_all(t) { els } else {
            let segs = path_segs(els);
            if segs_len(segs, 0.1f64).ieee_le(0.0f64) || segs.len() == 0 { Seq::empty() }
            else { cut_ranges(segs, flat2([Some(x.0), x.1]), flat2([Some(x.0), x.1]).len() as int) }
        },
    }
}
pub open spec fn cut_ranges(segs: Seq<kurbo::PathSeg>, rs: Seq<(f64, f64)>, n: int) -> Seq<PathEl> decreases n {
    if n <= 0 { Seq::empty() } else { cut_range(segs, rs[n - 1], cut_ranges(segs, rs, n - 1)) }
}
/// the trim keeps everything
pub open spec fn trim_all(t: fixed::Trim) -> bool {
    match t.norm() { None => false, Some(x) => x.0.0.ieee_le(1e-9f64) && x.0.1.ieee_ge(1.0f64.ieee_sub(1e-9f64)) && x.1 is None }
}
pub open spec fn bat_trim(b: Bat, t: fixed::Trim, gs: int) -> Bat {
    Bat { geos: Seq::new(b.geos.len(), |i: int| if i < gs { b.geos[i] } else { Geo { els: trim_els(b.geos[i].els, t), t: b.geos[i].t } }), ..b }
}
// ---- shape lists
pub open spec fn group_map(g: Option<GroupTransform>, frame: f64) -> Affine { match g { Some(g) => g.transform.eval(frame), None => aff_id() } }
pub open spec fn group_alpha(g: Option<GroupTransform>, frame: f64) -> f64 { match g { Some(g) => g.opacity.eval(frame).ieee_div(100.0f64), None => 1.0f64 } }
pub open spec fn nested_alpha(alpha: f64, g: Option<GroupTransform>, frame: f64) -> f64 { alpha.ieee_mul(group_alpha(g, frame)) }
pub open spec fn shape_step(b: Bat, s: Shape, t: Affine, alpha: f64, frame: f64, gs: int, ds: int) -> Bat decreases s, 0int {
    match s {
        Shape::Group(v, g) => shapes_run(b, v@, v@.len() as int, aff_mul(t, group_map(g, frame)), nested_alpha(alpha, g, frame), frame, b.geos.len() as int, b.draws.len() as int),
        Shape::Geometry(g) => bat_geometry(b, g.els(frame), t, gs),
        Shape::Draw(d) => bat_draw(b, d, alpha, gs, frame),
        Shape::Repeater(r) => bat_repeat(b, r.eval(frame), gs, ds),
        Shape::Trim(m) => bat_trim(b, m.eval(frame), gs),
    }
}
/// the batch after the first n shapes of a list whose scope starts at gs (geometry) and ds (paints)
pub open spec fn shapes_run(b: Bat, s: Seq<Shape>, n: int, t: Affine, alpha: f64, frame: f64, gs: int, ds: int) -> Bat decreases s, n {
    if n <= 0 || n > s.len() { b } else { shape_step(shapes_run(b, s, n - 1, t, alpha, frame, gs, ds), s[n - 1], t, alpha, frame, gs, ds) }
}
pub open spec fn shapes_all(b: Bat, s: Seq<Shape>, t: Affine, alpha: f64, frame: f64) -> Bat {
    shapes_run(b, s, s.len() as int, t, alpha, frame, b.geos.len() as int, b.draws.len() as int)
}
// ---- emission
pub open spec fn paint(d: Drw) -> peniko::Brush { brush_mul_alpha(d.brush, c_f32(d.alpha)) }
pub open spec fn draw_evs(b: Bat, d: Drw, n: int) -> Seq<Ev> {
    Seq::new(n as nat, |j: int| Ev::Draw { stroke: d.stroke, t: b.geos[d.lo + j].t, brush: paint(d), shape: ShapeV::Els(b.geos[d.lo + j].els) })
}
/// the paints from the last one down to number k
pub open spec fn bat_evs(b: Bat, k: int) -> Seq<Ev> decreases b.draws.len() - k {
    if k < 0 || k >= b.draws.len() { Seq::empty() } else { bat_evs(b, k + 1) + draw_evs(b, b.draws[k], b.draws[k].hi - b.draws[k].lo) }
}

// ---------------------------------------------------------------------------------------------
// well-formed batches
// ---------------------------------------------------------------------------------------------
pub open spec fn bat_ok(b: Bat) -> bool {
    &&& 0 <= b.drawn <= b.geos.len()
    &&& forall|i: int| 0 <= i < b.geos.len() ==> path_ok((#[trigger] b.geos[i]).els)
    &&& forall|i: int| 0 <= i < b.draws.len() ==> 0 <= (#[trigger] b.draws[i]).lo <= b.draws[i].hi <= b.geos.len()
}
/// the scope of a list: paints before it cover nothing of it, paints in it cover nothing outside
pub open spec fn scope_ok(b: Bat, gs: int, ds: int) -> bool {
    &&& 0 <= gs <= b.geos.len() && 0 <= ds <= b.draws.len()
    &&& forall|i: int| 0 <= i < ds ==> (#[trigger] b.draws[i]).hi <= gs
    &&& forall|i: int| ds <= i < b.draws.len() ==> (#[trigger] b.draws[i]).lo >= gs
}
/// DOMAIN: a fixed geometry is a proper path (begins with a MoveTo)
pub open spec fn shape_ok(s: Shape) -> bool decreases s, 0int {
    match s { Shape::Group(v, g) => shapes_ok(v@), Shape::Geometry(Geometry::Fixed(p)) => path_ok(p@), _ => true }
}
pub open spec fn shapes_ok(s: Seq<Shape>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> shape_ok(#[trigger] s[i]) }
pub open spec fn layer_ok(l: Layer) -> bool { match l.content { Content::Shape(s) => shapes_ok(s@), _ => true } }
pub open spec fn layers_ok(s: Seq<Layer>) -> bool { forall|i: int| 0 <= i < s.len() ==> layer_ok(#[trigger] s[i]) }
pub open spec fn comp_ok(c: Composition) -> bool {
    layers_ok(c.layers@) && forall|n: String| c.assets@.contains_key(n) ==> layers_ok((#[trigger] c.assets@[n])@)
}

// ---------------------------------------------------------------------------------------------
// layers
// ---------------------------------------------------------------------------------------------
/// the layers being drawn, outermost first: asset (none for the composition's own list) and position
pub type LPath = Seq<(Option<Seq<char>>, int)>;
pub open spec fn on_path(p: LPath, asset: Option<Seq<char>>, i: int) -> bool { exists|k: int| 0 <= k < p.len() && #[trigger] p[k] == (asset, i) }
pub proof fn lemma_path_push(p: LPath, me: (Option<Seq<char>>, int), asset: Option<Seq<char>>, i: int, n: Seq<char>)
    ensures on_path(p.push(me), asset, i) == (me == (asset, i) || on_path(p, asset, i)), asset_on_path(p.push(me), n) == (me.0 == Some(n) || asset_on_path(p, n)),
        on_path(seq![me], asset, i) == (me == (asset, i)), asset_on_path(seq![me], n) == (me.0 == Some(n)),
{
    let q = p.push(me);
    if on_path(p, asset, i) { let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == (asset, i); assert(q[k] == p[k]); }
    if asset_on_path(p, n) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == Some(n); assert(q[k] == p[k]); }
    assert(q[p.len() as int] == me);
    assert(seq![me][0] == me);
    if on_path(q, asset, i) && me != (asset, i) { let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == (asset, i); assert(p[k] == q[k]); }
    if asset_on_path(q, n) && me.0 != Some(n) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0 == Some(n); assert(p[k] == q[k]); }
}
pub open spec fn asset_on_path(p: LPath, n: Seq<char>) -> bool { exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == Some(n) }
/// number of positions below n that are not on the path
pub open spec fn idx_left(p: LPath, asset: Option<Seq<char>>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { idx_left(p, asset, (n - 1) as nat) + if on_path(p, asset, n - 1) { 0nat } else { 1nat } }
}
pub open spec fn names_left(c: Composition, p: LPath) -> nat { c.assets@.dom().filter(|s: String| !asset_on_path(p, s@)).len() }
pub proof fn lemma_idx_left_push(p: LPath, asset: Option<Seq<char>>, n: nat, i: int)
    ensures idx_left(p.push((asset, i)), asset, n) <= idx_left(p, asset, n),
        0 <= i < n && !on_path(p, asset, i) ==> idx_left(p.push((asset, i)), asset, n) < idx_left(p, asset, n)
    decreases n
{
    if n > 0 {
        lemma_idx_left_push(p, asset, (n - 1) as nat, i);
        let q = p.push((asset, i));
        assert(on_path(p, asset, n - 1) ==> on_path(q, asset, n - 1)) by {
            if on_path(p, asset, n - 1) { let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == (asset, n - 1); assert(q[k] == p[k]); }
        }
        if i == n - 1 { assert(q[p.len() as int] == (asset, i)); assert(on_path(q, asset, i)); }
    }
}
pub proof fn lemma_names_left_push(c: Composition, p: LPath, a: (Option<Seq<char>>, int))
    ensures names_left(c, p.push(a)) <= names_left(c, p),
        forall|n: String| a.0 == Some(n@) && #[trigger] c.assets@.contains_key(n) && !asset_on_path(p, n@) ==> names_left(c, p.push(a)) < names_left(c, p)
{
    let q = p.push(a);
    let s = c.assets@.dom();
    let f = s.filter(|s: String| !asset_on_path(p, s@));
    let g = s.filter(|s: String| !asset_on_path(q, s@));
    assert forall|n: String| g.contains(n) implies f.contains(n) by {
        if asset_on_path(p, n@) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == Some(n@); assert(q[k] == p[k]); }
    }
    assert(g.subset_of(f));
    vstd::set_lib::lemma_len_subset(g, f);
    assert forall|n: String| a.0 == Some(n@) && #[trigger] c.assets@.contains_key(n) && !asset_on_path(p, n@) implies g.len() < f.len() by {
        assert(f.contains(n));
        assert(q[p.len() as int].0 == Some(n@));
        assert(!g.contains(n));
        assert(g.subset_of(f.remove(n)));
        vstd::set_lib::lemma_len_subset(g, f.remove(n));
    }
}
pub open spec fn active(l: Layer, frame: f64) -> bool { l.frames.start.ieee_le(frame) && frame.ieee_lt(l.frames.end) }
/// the map of the ancestors from `parent` on applied after m
pub open spec fn chain(set: Seq<Layer>, parent: Option<usize>, fuel: nat, m: Affine, frame: f64) -> Affine decreases fuel {
    match parent {
        Some(i) => if fuel > 0 && i < set.len() { chain(set, set[i as int].parent, (fuel - 1) as nat, aff_mul(set[i as int].transform.eval(frame), m), frame) } else { m },
        None => m,
    }
}
pub open spec fn layer_map(set: Seq<Layer>, l: Layer, frame: f64) -> Affine { chain(set, l.parent, set.len(), l.transform.eval(frame), frame) }
pub open spec fn layer_alpha(l: Layer, alpha: f64, frame: f64) -> f64 { alpha.ieee_mul(l.opacity.eval(frame)).ieee_div(100.0f64) }
/// the frame of the asset's time line
pub open spec fn inst_frame(l: Layer, frame: f64) -> f64 { frame.ieee_div(l.stretch).ieee_add(l.start_frame.ieee_neg().ieee_div(l.stretch)) }
pub open spec fn view_rect(c: Composition) -> ShapeV { ShapeV::Rect(kurbo::Rect { x0: 0.0f64, y0: 0.0f64, x1: c_usize_f64(c.width), y1: c_usize_f64(c.height) }) }
pub open spec fn mask_evs(masks: Seq<Mask>, n: int, t: Affine, frame: f64) -> Seq<Ev> {
    Seq::new(n as nat, |k: int| Ev::PushClip { t, shape: ShapeV::Els(masks[k].geometry.els(frame)) })
}
pub open spec fn pops(n: int) -> Seq<Ev> { Seq::new(n as nat, |k: int| Ev::Pop) }
pub open spec fn n_pops(l: Layer) -> int { l.masks@.len() + if l.mask_layer is Some { 2int } else { 0 } }

pub open spec fn layer_evs(c: Composition, set: Seq<Layer>, l: Layer, index: int, p: LPath, t: Affine, alpha: f64, frame: f64) -> Seq<Ev>
    decreases names_left(c, p), idx_left(p, p.last().0, set.len()) + 2, 1int via dec_layer
{
    if !active(l, frame) { Seq::empty() } else {
        let lt = aff_mul(t, layer_map(set, l, frame));
        seq![Ev::Begin { name: l.name@, index }]
            + matte_evs(c, set, l, p, t, alpha, frame)
            + mask_evs(l.masks@, l.masks@.len() as int, lt, frame)
            + content_evs(c, l, p, lt, layer_alpha(l, alpha, frame), frame)
            + pops(n_pops(l))
            + seq![Ev::End]
    }
}
/// isolation layer, matte source, matte layer
pub open spec fn matte_evs(c: Composition, set: Seq<Layer>, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64) -> Seq<Ev>
    decreases names_left(c, p), idx_left(p, p.last().0, set.len()) + 2, 0int via dec_matte
{
    match l.mask_layer {
        None => Seq::empty(),
        Some(m) => seq![Ev::PushLayer { blend: blend_mix(peniko::Mix::Normal), alpha: 1.0f32, t, shape: view_rect(c) }]
            + (if m.1 < set.len() && p.len() > 0 && !on_path(p, p.last().0, m.1 as int) {
                layer_evs(c, set, set[m.1 as int], m.1 as int, p.push((p.last().0, m.1 as int)), t, alpha, frame)
            } else { Seq::empty() })
            + seq![Ev::PushLayer { blend: m.0, alpha: 1.0f32, t, shape: view_rect(c) }],
    }
}
pub open spec fn content_evs(c: Composition, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64) -> Seq<Ev>
    decreases names_left(c, p), 1int, 0int via dec_content
{
    match l.content {
        Content::None => Seq::empty(),
        Content::Instance { name, time_remap } => if c.assets@.contains_key(name) && !asset_on_path(p, name@) {
            inst_evs(c, name, 0, p, t, alpha, inst_frame(l, frame))
        } else { Seq::empty() },
        Content::Shape(s) => bat_evs(shapes_all(bat_new(), s@, t, alpha, frame), 0),
    }
}
/// the layers of an asset from the last one down to number k
pub open spec fn inst_evs(c: Composition, name: String, k: int, p: LPath, t: Affine, alpha: f64, frame: f64) -> Seq<Ev>
    decreases names_left(c, p), 0int, c.assets@[name]@.len() - k via dec_inst
{
    if k < 0 || !c.assets@.contains_key(name) || asset_on_path(p, name@) || k >= c.assets@[name]@.len() { Seq::empty() } else {
        let set = c.assets@[name]@;
        inst_evs(c, name, k + 1, p, t, alpha, frame)
            + if set[k].is_mask { Seq::empty() } else { layer_evs(c, set, set[k], k, p.push((Some(name@), k)), t, alpha, frame) }
    }
}
#[via_fn]
proof fn dec_layer(c: Composition, set: Seq<Layer>, l: Layer, index: int, p: LPath, t: Affine, alpha: f64, frame: f64) { }
#[via_fn]
proof fn dec_matte(c: Composition, set: Seq<Layer>, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64) {
    if let Some(m) = l.mask_layer {
        let a = (p.last().0, m.1 as int);
        lemma_names_left_push(c, p, a);
        lemma_idx_left_push(p, p.last().0, set.len(), m.1 as int);
    }
}
#[via_fn]
proof fn dec_content(c: Composition, l: Layer, p: LPath, t: Affine, alpha: f64, frame: f64) { }
#[via_fn]
proof fn dec_inst(c: Composition, name: String, k: int, p: LPath, t: Affine, alpha: f64, frame: f64) {
    lemma_names_left_push(c, p, (Some(name@), k));
}
/// the composition's own layers from the last one down to number k
pub open spec fn top_evs(c: Composition, k: int, t: Affine, alpha: f64, frame: f64) -> Seq<Ev> decreases c.layers@.len() - k {
    if k < 0 || k >= c.layers@.len() { Seq::empty() } else {
        top_evs(c, k + 1, t, alpha, frame)
            + if c.layers@[k].is_mask { Seq::empty() } else { layer_evs(c, c.layers@, c.layers@[k], k, seq![(None, k)], t, alpha, frame) }
    }
}
pub open spec fn comp_evs(c: Composition, frame: f64, t: Affine, alpha: f64) -> Seq<Ev> {
    seq![Ev::PushClip { t, shape: view_rect(c) }] + top_evs(c, 0, t, alpha, frame) + seq![Ev::Pop]
}
} // verus!
