@file runtime/model/mod.rs
@wrap enum Transform
@wrap enum Stroke
@wrap enum Repeater
@wrap enum ColorStops
@wrap enum Brush
@wrap enum Geometry
@wrap enum Trim
@wrap struct Draw
@wrap struct GroupTransform
@wrap enum Shape
@wrap struct Layer
@wrap struct Mask
@wrap enum Content
@itemattr struct Layer
#[verifier::external_derive]
@itemattr struct Mask
#[verifier::external_derive]
@itemattr enum Content
#[verifier::external_derive]
@itemattr enum Shape
#[verifier::external_derive]
@desugar cast neg
@derive Layer Default
@derive Content Default
@fn <Default for Layer>::default
@ret r
@spec
    ensures r.name@.len() == 0, r.parent is None, r.masks@.len() == 0, r.content is None, r.mask_layer is None, !r.is_mask, r.blend_mode is None,
        r.width == 0.0f64 && r.height == 0.0f64, r.stretch == 0.0f64, r.start_frame == 0.0f64
@fn <Default for Content>::default
@ret r
@spec
    ensures r is None
@fn Transform::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Transform::evaluate
@ret r
@spec
    ensures r.val() == self.eval(frame)
@fn Stroke::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Stroke::evaluate
@ret r
@spec
    ensures r.val() == self.eval(frame)
@fn Repeater::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Repeater::evaluate
@ret r
@spec
    ensures r.val() == self.eval(frame)
@fn ColorStops::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn ColorStops::evaluate
@ret r
@spec
    ensures r.val() == self.eval(frame)
@fn Brush::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Brush::evaluate
@ret r
@spec
    ensures r.val() == self.eval(alpha, frame)
@outline $a.to_owned().multiply_alpha($x)
crate::verif_spec::MulAlpha::mul_alpha(crate::verif_spec::w_clone_brush($a), $x)
@entry
    proof { lemma_eq_one(alpha); }
@fn Trim::is_fixed
@ret r
@spec
    ensures r == self.fixed()
@fn Trim::evaluate
@ret r
@spec
    ensures r.val() == self.eval(frame)
@fn <Default for Transform>::default
@ret r
@spec
    ensures r == Transform::Fixed(aff_id())
@fn Geometry::evaluate
@spec
    ensures final(path)@ == old(path)@ + self.els(frame)
@outline path.extend_from_slice($a);
crate::verif_spec::w_extend_els(path, $a);
@outline path.extend($s.path_elements($t));
crate::verif_spec::w_extend_shape(path, $s, $t);
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields, crate::verif_spec::group_peniko};
pub proof fn lemma_eq_one(x: f64) ensures x.ieee_eq(1.0f64) <==> x == 1.0f64 {
    assert(x.ieee_eq(1.0f64) <==> x == 1.0f64) by(bit_vector);
}
impl Transform {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, frame: f64) -> Affine { match *self { Transform::Fixed(v) => v, Transform::Animated(a) => a.eval(frame) } }
}
impl Stroke {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, frame: f64) -> fixed::Stroke { match *self { Stroke::Fixed(v) => v, Stroke::Animated(a) => a.eval(frame) } }
}
impl Repeater {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, frame: f64) -> fixed::Repeater { match *self { Repeater::Fixed(v) => v, Repeater::Animated(a) => a.eval(frame) } }
}
impl Trim {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, frame: f64) -> fixed::Trim { match *self { Trim::Fixed(v) => v, Trim::Animated(a) => a.eval(frame) } }
}
impl ColorStops {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, frame: f64) -> fixed::ColorStops { match *self { ColorStops::Fixed(v) => v, ColorStops::Animated(a) => a.eval(frame) } }
}
impl Brush {
    pub open spec fn fixed(&self) -> bool { self is Fixed }
    pub open spec fn eval(&self, alpha: f64, frame: f64) -> fixed::Brush { match *self { Brush::Fixed(v) => brush_mul_alpha(v, c_f32(alpha)), Brush::Animated(a) => a.eval(alpha, frame) } }
}
impl Geometry {
    /// the path elements of the geometry at a frame
    pub open spec fn els(&self, frame: f64) -> Seq<PathEl> {
        match *self {
            Geometry::Fixed(p) => p@,
            Geometry::Rect(r) => shape_els(r.eval(frame), 0.1f64),
            Geometry::Ellipse(r) => shape_els(r.eval(frame), 0.1f64),
            Geometry::Spline(s) => s.els(frame),
            Geometry::Star(s) => s.els(frame),
        }
    }
}
