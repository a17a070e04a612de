@file runtime/model/animated.rs
@wrap enum Position
@wrap struct Transform
@wrap struct Ellipse
@wrap struct Rect
@wrap struct Star
@wrap struct Spline
@wrap struct SplineKeyframeValues
@wrap struct Repeater
@wrap struct Stroke
@wrap struct Gradient
@wrap struct ColorStops
@wrap enum Brush
@wrap struct Trim
@itemattr enum Position
#[verifier::external_derive]
@desugar cast neg
@prepend
use crate::runtime::model::value::{fw_ix0, fw_ix1, fw_weight, easing_of, f64_tween};
@fn Transform::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Transform::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@fn Transform::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Ellipse::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Ellipse::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@outline kurbo::Ellipse::new($a)
crate::verif_spec::w_ellipse_new($a)
@fn Rect::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Rect::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@outline kurbo::RoundedRect::new($a,)
crate::verif_spec::w_rrect_new($a)
@outline kurbo::RoundedRect::new($a)
crate::verif_spec::w_rrect_new($a)
@fn Star::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Star::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Spline::evaluate
@ret r
@spec
    ensures r == (self.at(frame) is Some),
        final(path)@ == old(path)@ + self.els(frame)
@exit
    proof { assert(self.els(frame) =~= self.els(frame)); }
@fn Repeater::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Repeater::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@fn Repeater::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Stroke::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Stroke::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@fn Stroke::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Gradient::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Gradient::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@outline $g.stops = $s;
crate::verif_spec::w_set_stops(&mut $g, $s);
@outline $g.into()
crate::verif_spec::IntoBrush::into_brush($g)
@fn ColorStops::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@outline $a.unwrap_or_default()
match $a { Some(__v) => __v, None => crate::verif_spec::w_stops_default() }
@fn ColorStops::evaluate_inner
@ret r
@spec
    ensures match r { Some(s) => self.complete(frame) && stops_view(s) == self.stops_seq(frame), None => !self.complete(frame) }
@outline Default::default()
crate::verif_spec::w_stops_default()
@outline peniko::Color::new($x)
crate::verif_spec::w_color($x)
@outline peniko::ColorStop::from($x)
crate::verif_spec::w_stop($x)
@outline stops.push($x)
crate::verif_spec::w_push_stop(&mut stops, $x)
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == self.count,
        5 * __k0 <= v0.len(), 5 * __k0 <= v1.len(),
        stops_view(stops) == Seq::new(__k0 as nat, |k: int| self.stop(frame, k)),
    decreases __n0 - __k0
@loopend 0
    proof { assert(Seq::new(__k0 as nat, |k: int| self.stop(frame, k)) =~= Seq::new((__k0 - 1) as nat, |k: int| self.stop(frame, k)).push(self.stop(frame, __k0 - 1))); }
@fn Brush::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Brush::evaluate
@ret r
@spec
    ensures r == self.eval(alpha, frame)
@outline $a.multiply_alpha($x).into()
crate::verif_spec::IntoBrush::into_brush(crate::verif_spec::MulAlpha::mul_alpha($a, $x))
@outline $a.multiply_alpha($x)
crate::verif_spec::MulAlpha::mul_alpha($a, $x)
@outline peniko::Color::TRANSPARENT
crate::verif_spec::w_transparent()
@fn Brush::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Trim::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Trim::evaluate
@ret r
@spec
    ensures r == self.eval(frame)
@fn Trim::into_model
@ret r
@spec
    ensures self.becomes(r)
@fn Star::evaluate
@spec
    ensures final(path)@ == old(path)@ + self.els(frame)
@desugar compound
@entry
    broadcast use crate::verif_spec::ax_count;
@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == total_vertices, total_vertices == self.total(frame), is_star == !self.is_polygon,
        center == self.position.eval(frame), num_points == self.count(frame), num_points > 0, vertex_angle_step == self.step(frame),
        outer_radius == self.outer_radius.eval(frame), outer_roundness == self.outer_roundness.eval(frame).ieee_div(100.0f64),
        is_star ==> inner_radius == self.inner_radius.eval(frame) && inner_roundness == self.inner_roundness.eval(frame).ieee_div(100.0f64),
        current_angle == self.angle(frame, __k0 as nat), path@ == old(path)@,
        vertices@ == Seq::new(__k0 as nat, |k: int| (self.vertex(frame, k), self.handle_in(frame, k), self.handle_out(frame, k))),
    decreases __n0 - __k0
@loopend 0
    proof { assert(vertices@ =~= Seq::new(__k0 as nat, |k: int| (self.vertex(frame, k), self.handle_in(frame, k), self.handle_out(frame, k)))); }
@loop 1
    invariant 1 <= __k1 <= __n1, __n1 == vertices@.len(), total_vertices == self.total(frame), 
        num_points == self.count(frame), num_points > 0,
        vertices@ == Seq::new(self.total(frame) as nat, |k: int| (self.vertex(frame, k), self.handle_in(frame, k), self.handle_out(frame, k))),
        path@ == old(path)@ + (seq![PathEl::MoveTo(self.vertex(frame, 0))] + Seq::new((__k1 - 1) as nat, |k: int| self.edge(frame, k, k + 1))),
    decreases __n1 - __k1
@loopend 1
    proof {
        let a = Seq::new((__k1 - 2) as nat, |k: int| self.edge(frame, k, k + 1)); let b = Seq::new((__k1 - 1) as nat, |k: int| self.edge(frame, k, k + 1));
        assert(b =~= a.push(self.edge(frame, __k1 - 2, __k1 - 1)));
        assert(path@ =~= old(path)@ + (seq![PathEl::MoveTo(self.vertex(frame, 0))] + b));
    }
@exit
    proof { assert(path@ =~= old(path)@ + self.els(frame)); }
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko};
impl Position {
    pub open spec fn fixed(&self) -> bool { match *self { Position::Value(v) => v.fixed(), Position::SplitValues(p) => p.0.fixed() && p.1.fixed() } }
    pub open spec fn eval(&self, frame: f64) -> Point { match *self { Position::Value(v) => v.eval(frame), Position::SplitValues(p) => Point { x: p.0.eval(frame), y: p.1.eval(frame) } } }
}
/// skew by `skew` degrees along the axis at `angle` degrees
pub open spec fn skew_map(skew: f64, angle: f64) -> Affine {
    if skew.ieee_eq(0.0f64) { aff_id() } else {
        aff_mul(aff_mul(aff_rotate(f_to_radians(angle).ieee_neg()), aff_skew(f_tan(f_to_radians(skew)), 0.0f64)), aff_rotate(f_to_radians(angle)))
    }
}
impl Transform {
    /// what `into_model` makes of it: the value itself when nothing is keyframed
    pub open spec fn becomes(self, r: crate::runtime::model::Transform) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed ==> r->Fixed_0 == self.eval(0.0f64)) && (r is Animated ==> r->Animated_0 == self)
    }
    pub open spec fn fixed(&self) -> bool {
        self.anchor.fixed() && self.position.fixed() && self.rotation.fixed() && self.scale.fixed() && self.skew.fixed() && self.skew_angle.fixed()
    }
    /// position o rotation o skew o scale o (- anchor)
    pub open spec fn eval(&self, frame: f64) -> Affine {
        let a = self.anchor.eval(frame); let p = self.position.eval(frame); let s = self.scale.eval(frame);
        aff_mul(aff_mul(aff_mul(aff_mul(
            aff_translate(Vec2 { x: p.x, y: p.y }),
            aff_rotate(f_to_radians(self.rotation.eval(frame)))),
            skew_map(self.skew.eval(frame), self.skew_angle.eval(frame))),
            aff_scale(s.x.ieee_div(100.0f64), s.y.ieee_div(100.0f64))),
            aff_translate(Vec2 { x: a.x.ieee_neg(), y: a.y.ieee_neg() }))
    }
}
impl Ellipse {
    pub open spec fn fixed(&self) -> bool { self.position.fixed() && self.size.fixed() }
    pub open spec fn eval(&self, frame: f64) -> kurbo::Ellipse {
        let s = self.size.eval(frame);
        ellipse_new(self.position.eval(frame), Vec2 { x: s.width.ieee_mul(0.5f64), y: s.height.ieee_mul(0.5f64) }, 0.0f64)
    }
}
impl Rect {
    pub open spec fn fixed(&self) -> bool { self.position.fixed() && self.size.fixed() && self.corner_radius.fixed() }
    pub open spec fn eval(&self, frame: f64) -> kurbo::RoundedRect {
        let p = self.position.eval(frame); let s = self.size.eval(frame);
        let x = p.x.ieee_sub(s.width.ieee_mul(0.5f64)); let y = p.y.ieee_sub(s.height.ieee_mul(0.5f64));
        rrect_new(x, y, x.ieee_add(s.width), y.ieee_add(s.height), self.corner_radius.eval(frame))
    }
}
impl Repeater {
    /// what `into_model` makes of it: the value itself when nothing is keyframed
    pub open spec fn becomes(self, r: crate::runtime::model::Repeater) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed ==> r->Fixed_0 == self.eval(0.0f64)) && (r is Animated ==> r->Animated_0 == self)
    }
    pub open spec fn fixed(&self) -> bool {
        self.copies.fixed() && self.offset.fixed() && self.anchor_point.fixed() && self.position.fixed() && self.rotation.fixed() && self.scale.fixed() && self.start_opacity.fixed() && self.end_opacity.fixed()
    }
    pub open spec fn eval(&self, frame: f64) -> fixed::Repeater {
        fixed::Repeater {
            copies: c_usize(f_round(self.copies.eval(frame))),
            offset: self.offset.eval(frame),
            anchor_point: self.anchor_point.eval(frame),
            position: self.position.eval(frame),
            rotation: self.rotation.eval(frame),
            scale: self.scale.eval(frame),
            start_opacity: self.start_opacity.eval(frame),
            end_opacity: self.end_opacity.eval(frame),
        }
    }
}
impl Stroke {
    /// what `into_model` makes of it: the value itself when nothing is keyframed
    pub open spec fn becomes(self, r: crate::runtime::model::Stroke) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed ==> r->Fixed_0 == self.eval(0.0f64)) && (r is Animated ==> r->Animated_0 == self)
    }
    pub open spec fn fixed(&self) -> bool { self.width.fixed() }
    pub open spec fn eval(&self, frame: f64) -> kurbo::Stroke {
        let s = stroke_join(stroke_caps(stroke_new(self.width.eval(frame)), self.cap), self.join);
        match self.miter_limit { Some(m) => stroke_miter(s, m), None => s }
    }
}
impl Trim {
    /// what `into_model` makes of it: the value itself when nothing is keyframed
    pub open spec fn becomes(self, r: crate::runtime::model::Trim) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed ==> r->Fixed_0 == self.eval(0.0f64)) && (r is Animated ==> r->Animated_0 == self)
    }
    pub open spec fn fixed(&self) -> bool { self.start.fixed() && self.end.fixed() && self.offset.fixed() }
    pub open spec fn eval(&self, frame: f64) -> fixed::Trim { fixed::Trim { start: self.start.eval(frame), end: self.end.eval(frame), offset: self.offset.eval(frame) } }
}
impl Gradient {
    pub open spec fn fixed(&self) -> bool { self.start_point.fixed() && self.end_point.fixed() && self.stops.fixed() }
    pub open spec fn eval(&self, frame: f64) -> peniko::Brush {
        let s = self.start_point.eval(frame); let e = self.end_point.eval(frame);
        let g = if self.is_radial {
            grad_radial(s, c_f32(vec2_hypot(vec2_sub(Vec2 { x: e.x, y: e.y }, Vec2 { x: s.x, y: s.y }))))
        } else { grad_linear(s, e) };
        brush_grad(grad_stops(g, self.stops.eval(frame)))
    }
}
impl Brush {
    /// what `into_model` makes of it: the value itself when nothing is keyframed
    pub open spec fn becomes(self, r: crate::runtime::model::Brush) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed ==> r->Fixed_0 == self.eval(1.0f64, 0.0f64)) && (r is Animated ==> r->Animated_0 == self)
    }
    pub open spec fn fixed(&self) -> bool { match *self { Brush::Solid(v) => v.fixed(), Brush::Gradient(g) => g.fixed() } }
    pub open spec fn eval(&self, alpha: f64, frame: f64) -> fixed::Brush {
        match *self {
            Brush::Solid(v) => brush_solid(color_mul_alpha(v.eval_or(frame, color_transparent()), c_f32(alpha))),
            Brush::Gradient(g) => brush_mul_alpha(g.eval(frame), c_f32(alpha)),
        }
    }
}
impl ColorStops {
    pub open spec fn ix0(&self, frame: f64) -> int { fw_ix0(self.frames@, frame) }
    pub open spec fn ix1(&self, frame: f64) -> int { fw_ix1(self.frames@, frame) }
    /// fraction of the way between the two keyframes; none on a hold keyframe
    pub open spec fn weight(&self, frame: f64) -> f64 { if self.frames@[self.ix0(frame)].hold { 0.0f64 } else { fw_weight(self.frames@, frame) } }
    pub open spec fn chan(&self, frame: f64, j: int) -> f64 {
        f64_tween(self.values@[self.ix0(frame)]@[j], self.values@[self.ix1(frame)]@[j], self.weight(frame), easing_of(self.frames@[self.ix0(frame)]))
    }
    pub open spec fn stop(&self, frame: f64, k: int) -> peniko::ColorStop {
        stop_new(c_f32(self.chan(frame, 5 * k)), color_new([c_f32(self.chan(frame, 5 * k + 1)), c_f32(self.chan(frame, 5 * k + 2)), c_f32(self.chan(frame, 5 * k + 3)), c_f32(self.chan(frame, 5 * k + 4))]))
    }
    /// both keyframes around `frame` provide the declared number of stops
    pub open spec fn complete(&self, frame: f64) -> bool {
        self.frames@.len() > 0 && self.ix0(frame) < self.values@.len() && self.ix1(frame) < self.values@.len()
        && 5 * self.count <= self.values@[self.ix0(frame)]@.len() && 5 * self.count <= self.values@[self.ix1(frame)]@.len()
    }
    pub open spec fn stops_seq(&self, frame: f64) -> Seq<peniko::ColorStop> { Seq::new(self.count as nat, |k: int| self.stop(frame, k)) }
    pub open spec fn eval(&self, frame: f64) -> fixed::ColorStops { if self.complete(frame) { stops_of(self.stops_seq(frame)) } else { default_of::<peniko::ColorStops>() } }
}
impl Spline {
    /// the vertex list at a frame: both keyframes and the eased fraction between them
    pub open spec fn at(&self, frame: f64) -> Option<(Seq<Point>, Seq<Point>, f64)> {
        let i = fw_ix0(self.times@, frame); let j = fw_ix1(self.times@, frame);
        if self.times@.len() == 0 || i >= self.values@.len() || j >= self.values@.len() { None } else {
            Some((self.values@[i].start@,
                match self.values@[i].end { Some(e) => e@, None => self.values@[j].start@ },
                if self.times@[i].hold { 0.0f64 } else { f64_tween(0.0f64, 1.0f64, fw_weight(self.times@, frame), easing_of(self.times@[i])) }))
        }
    }
    pub open spec fn els(&self, frame: f64) -> Seq<PathEl> {
        match self.at(frame) { Some(x) => super::spline::path_of(super::spline::lerp_pts(x.0, x.1, x.2), self.is_closed), None => Seq::empty() }
    }
}
// ---- stars and polygons
impl Star {
    pub open spec fn becomes(self, r: crate::runtime::model::Geometry) -> bool {
        (r is Fixed <==> self.fixed()) && (r is Fixed || r is Star) && (r is Fixed ==> r->Fixed_0@ == self.els(0.0f64)) && (r is Star ==> r->Star_0 == self)
    }
    pub open spec fn fixed(&self) -> bool {
        self.position.fixed() && self.inner_radius.fixed() && self.inner_roundness.fixed() && self.outer_radius.fixed() && self.outer_roundness.fixed() && self.rotation.fixed() && self.points.fixed()
    }
    pub open spec fn count(&self, frame: f64) -> usize { c_usize(f_round(self.points.eval(frame))) }
    pub open spec fn total(&self, frame: f64) -> int { if self.is_polygon { self.count(frame) as int } else { 2 * self.count(frame) } }
    pub open spec fn step(&self, frame: f64) -> f64 {
        let a = f_tau().ieee_div(c_usize_f64(self.count(frame)));
        if self.is_polygon { a } else { a.ieee_div(2.0f64) }
    }
    /// the angle of vertex i, accumulated step by step from the rotation measured from the top
    pub open spec fn angle(&self, frame: f64, i: nat) -> f64 decreases i {
        if i == 0 { f_to_radians(self.rotation.eval(frame)).ieee_sub(f_frac_pi_2()) } else { self.angle(frame, (i - 1) as nat).ieee_add(self.step(frame)) }
    }
    pub open spec fn outer(&self, i: int) -> bool { self.is_polygon || i % 2 == 0 }
    pub open spec fn radius(&self, frame: f64, i: int) -> f64 { if self.outer(i) { self.outer_radius.eval(frame) } else { self.inner_radius.eval(frame) } }
    pub open spec fn roundness(&self, frame: f64, i: int) -> f64 { (if self.outer(i) { self.outer_roundness.eval(frame) } else { self.inner_roundness.eval(frame) }).ieee_div(100.0f64) }
    pub open spec fn vertex(&self, frame: f64, i: int) -> Point {
        let c = self.position.eval(frame); let a = self.angle(frame, i as nat); let r = self.radius(frame, i);
        Point { x: c.x.ieee_add(r.ieee_mul(f_cos(a))), y: c.y.ieee_add(r.ieee_mul(f_sin(a))) }
    }
    pub open spec fn handle_len(&self, frame: f64, i: int) -> f64 {
        self.radius(frame, i).ieee_mul(f_tan(self.step(frame).ieee_div(2.0f64))).ieee_mul(self.roundness(frame, i)).ieee_mul(4.0f64).ieee_div(3.0f64)
    }
    pub open spec fn handle_in(&self, frame: f64, i: int) -> Point {
        let v = self.vertex(frame, i); let a = self.angle(frame, i as nat); let l = self.handle_len(frame, i);
        if f_abs(self.roundness(frame, i)).ieee_gt(1e-6f64) { Point { x: v.x.ieee_sub(l.ieee_mul(f_sin(a).ieee_neg())), y: v.y.ieee_sub(l.ieee_mul(f_cos(a))) } } else { v }
    }
    pub open spec fn handle_out(&self, frame: f64, i: int) -> Point {
        let v = self.vertex(frame, i); let a = self.angle(frame, i as nat); let l = self.handle_len(frame, i);
        if f_abs(self.roundness(frame, i)).ieee_gt(1e-6f64) { Point { x: v.x.ieee_add(l.ieee_mul(f_sin(a).ieee_neg())), y: v.y.ieee_add(l.ieee_mul(f_cos(a))) } } else { v }
    }
    pub open spec fn straight(&self, frame: f64, i: int, j: int) -> bool { near(self.handle_out(frame, i), self.vertex(frame, i)) && near(self.handle_in(frame, j), self.vertex(frame, j)) }
    pub open spec fn edge(&self, frame: f64, i: int, j: int) -> PathEl {
        if self.straight(frame, i, j) { PathEl::LineTo(self.vertex(frame, j)) } else { PathEl::CurveTo(self.handle_out(frame, i), self.handle_in(frame, j), self.vertex(frame, j)) }
    }
    pub open spec fn els(&self, frame: f64) -> Seq<PathEl> {
        if self.count(frame) == 0 { Seq::empty() } else {
            let n = self.total(frame);
            let open = seq![PathEl::MoveTo(self.vertex(frame, 0))] + Seq::new((n - 1) as nat, |k: int| self.edge(frame, k, k + 1));
            // the closing edge is straight (drawn by the close itself) or a curve back to the first vertex
            (if self.straight(frame, n - 1, 0) { open } else { open.push(self.edge(frame, n - 1, 0)) }).push(PathEl::ClosePath)
        }
    }
}
pub open spec fn near(a: Point, b: Point) -> bool { f_abs(a.x.ieee_sub(b.x)).ieee_lt(1e-6f64) && f_abs(a.y.ieee_sub(b.y)).ieee_lt(1e-6f64) }
