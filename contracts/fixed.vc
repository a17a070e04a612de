@file runtime/model/fixed.rs
@wrap struct Repeater
@wrap struct Trim
@desugar cast neg
@fn Repeater::transform
@ret r
@spec
    ensures r == self.map(index)
@fn Trim::normalized
@ret r
@spec
    ensures r == self.norm()
@end
@append
broadcast use {crate::verif_spec::group_ieee, crate::verif_spec::group_float_fields, crate::verif_fields::group_fields};
impl Repeater {
    /// the map of copy `index`: (offset + index) steps of position, rotation and scale about the anchor
    pub open spec fn map(&self, index: usize) -> Affine {
        let t = self.offset.ieee_add(c_usize_f64(index));
        aff_mul(aff_mul(aff_mul(
            aff_translate(Vec2 { x: t.ieee_mul(self.position.x).ieee_add(self.anchor_point.x), y: t.ieee_mul(self.position.y).ieee_add(self.anchor_point.y) }),
            aff_rotate(f_to_radians(t.ieee_mul(self.rotation)))),
            aff_scale(f_powf(self.scale.x.ieee_div(100.0f64), t), f_powf(self.scale.y.ieee_div(100.0f64), t))),
            aff_translate(Vec2 { x: self.anchor_point.x.ieee_neg(), y: self.anchor_point.y.ieee_neg() }))
    }
}
impl Trim {
    pub open spec fn lo(&self) -> f64 { if self.start.ieee_le(self.end) { self.start } else { self.end } }
    pub open spec fn hi(&self) -> f64 { if self.start.ieee_le(self.end) { self.end } else { self.start } }
    pub open spec fn span(&self) -> f64 { self.hi().ieee_sub(self.lo()) }
    pub open spec fn from(&self) -> f64 { f_rem_euclid(self.lo().ieee_add(self.offset.ieee_mul(100.0f64.ieee_div(360.0f64))), 100.0f64) }
    pub open spec fn to(&self) -> f64 { self.from().ieee_add(self.span()) }
    pub open spec fn norm(&self) -> Option<((f64, f64), Option<(f64, f64)>)> {
        if self.span().ieee_lt(1e-9f64) { None }
        else if self.span().ieee_ge(100.0f64.ieee_sub(1e-9f64)) { Some(((0.0f64, 1.0f64), None)) }
        else if self.to().ieee_le(100.0f64) { Some(((self.from().ieee_div(100.0f64), self.to().ieee_div(100.0f64)), None)) }
        else { Some(((self.from().ieee_div(100.0f64), 1.0f64), Some((0.0f64, self.to().ieee_sub(100.0f64).ieee_div(100.0f64))))) }
    }
}
